"""Interpreter of extracted statements and expressions over symbolic values."""
from fractions import Fraction
import z3
from values import *
import cxxtypes as T
from sym import RetX, BrkX, ContX, ThrowX, AbortX, PathEnd

STREAMS = ("std::basic_ostream", "std::basic_stringstream", "std::__cxx11::basic_stringstream", "std::basic_ios",
           "std::basic_ostringstream", "std::__cxx11::basic_ostringstream")

import lib      # noqa: E402 (circular: lib uses STREAMS)
import loops    # noqa: E402

MAXDEPTH = 60


# ------------------------------------------------------------------ helpers
def load(E, x):
    """value of x (a location is read)"""
    if isinstance(x, LV):
        v = E.read(x)
        if isinstance(v, RefVal):
            return load(E, v.lv)
        return v
    return x


def to_lv(E, x, cls=None):
    if isinstance(x, LV):
        return x
    if isinstance(x, RefVal):
        return x.lv
    return E.local(x, cls)


def same_type_cls(t):
    return T.strip_const(T.cvref(t))


def default_value(E, t, target=None):
    """value-/default-initialised object of type t without an explicit initialiser"""
    t = same_type_cls(t)
    if t == "bool":
        return False
    if t in T.INT_TYPES or t in E.prog.enums:
        return 0
    if t in T.REAL_TYPES:
        return Fraction(0)
    if T.is_ptr(t):
        return Ptr(0, T.strip_const(T.pointee(t)))
    if "::*)" in t:
        return Fn([])
    return lib.default_construct(E, t)


def uninit_value(E, t):
    t = same_type_cls(t)
    b = T.tmpl(t)[0]
    if "::*)" not in t and E.prog.is_repo(t):
        return Struct(t, {fr["name"]: UNINIT for _, fr in E.prog.fields(t)})
    return UNINIT


# ------------------------------------------------------------------ functions
def call_function(E, f, this, args, target=None):
    """f: function record with body; args: one value or location per parameter"""
    if E.depth > MAXDEPTH:
        raise Unsupported("call depth (recursion?) in " + f["key"])
    E.prog.used.add(f["key"])
    env0 = E.env
    env = {}
    E.depth += 1
    E.frames.append(f["name"])
    try:
        for p, a in zip(f["params"], args):
            env[p["id"]] = bind_param(E, p["t"], a)
        fr = Frame(f, this)
        env["frame"] = fr
        E.env = env
        if f.get("ctor"):
            run_inits(E, f, this)
        try:
            if f["body"] is not None:
                ex(E, f["body"])
            r = None
        except RetX as x:
            r = x.v
        if r is not None and not T.is_ref(f["rt"]) and isinstance(r, LV):
            r = load(E, r)
        return r
    finally:
        E.env = env0
        E.depth -= 1
        E.frames.pop()


class Frame:
    __slots__ = ("f", "this")

    def __init__(self, f, this):
        self.f, self.this = f, this


def bind_param(E, t, a):
    if T.is_ref(t):
        tt = same_type_cls(t)
        if isinstance(a, RefVal):
            return a.lv
        return to_lv(E, a, tt)
    v = load(E, a)
    return E.local(v, same_type_cls(t))


def run_inits(E, f, this):
    done = set()
    for i in f.get("inits", []):
        e = i["e"]
        if "member" in i:
            cf = E.prog.field(f["cls"], i["member"])
            if cf is None:
                raise Unsupported("field " + i["member"])
            # the field declared by this very class
            lv = this.step("f", i["member"], f["cls"])
            if T.is_ref(i["mt"]):
                v = ev(E, e)
                E.write(lv, RefVal(to_lv(E, v)))
                continue
            init_into(E, lv, i["mt"], e)
        elif i.get("base", "").startswith("Eigen::"):
            E.write(this.step("f", "#eigen", f["cls"]), load(E, ev(E, e)))
        elif i.get("base", "").startswith("std::queue<"):
            if e.get("args"):
                raise Unsupported("queue made of something")
            E.write(this.step("f", "c", i["base"]), Vec.of([], T.tmpl(i["base"])[1][0]))
        else:
            # base or delegating
            ev(E, e, target=this)


def init_into(E, lv, t, e):
    """initialise the object at lv with initialiser expression e"""
    if e is None:
        E.write(lv, uninit_value(E, t))
        return
    tt = same_type_cls(t)
    if e["k"] in ("Construct", "InitList") and E.prog.is_repo(tt):
        if lv.root[0] == "l" and lv.path == ():
            E.store[lv.root] = uninit_value(E, tt)
        elif not (lv.root[0] == "h" and lv.path == ()):
            E.write(lv, uninit_value(E, tt))
        r = ev(E, e, target=LV(lv.root, lv.path, tt))
        if r is not BUILT:
            E.write(lv, load(E, r))
        return
    v = ev(E, e)
    v = load(E, v)
    v = convert_to(E, v, tt)
    E.write(lv, v)


def convert_to(E, v, tt):
    """implicit representation changes (Eigen expressions stored in plain matrices)"""
    b = T.tmpl(tt)[0]
    if b in ("Eigen::Matrix", "Eigen::Array") and not isinstance(v, (Mat, Uninit)):
        return E.asmat(v)
    if tt in T.REAL_TYPES and isinstance(v, Mat):
        return v.get(0, 0)
    return v


class _Built:
    pass


BUILT = _Built()


def construct_by_args(E, cls, args, fn=None, heap=True):
    cands = E.prog.byname.get(cls + "::" + T.tmpl(cls)[0].split("::")[-1], [])
    cands = [f for f in cands if f.get("ctor") and (len(f["params"]) == len(args) if fn is None else f["key"] == fn)]
    if len(cands) != 1:
        raise Unsupported("constructor of %s: %d candidates" % (cls, len(cands)))
    lv = E.new_obj(cls) if heap else E.local(uninit_value(E, cls), cls)
    lv.cls = cls
    call_function(E, cands[0], lv, args)
    return lv


# ------------------------------------------------------------------ statements
def user_dtor(E, t):
    """the destructor written for the class t, None when there is nothing to run"""
    t = same_type_cls(t)
    if T.is_ref(t) or T.is_ptr(t) or not E.prog.is_repo(t):
        return None
    for f in E.prog.byname.get(t + "::~" + t.split("<")[0].split("::")[-1], []):
        if not f.get("defaulted") and f.get("body", {}).get("body"):
            return f
    return None


def scope_dtors(E, s):
    """[(variable id, destructor)] of the locals of the block whose end of life runs code"""
    out = []
    for x in s["body"]:
        if x is not None and x["k"] == "Decl":
            for v in x["vars"]:
                if v.get("k") == "Var" and not v.get("static") and not T.is_ref(v["t"]):
                    d = user_dtor(E, v["t"])
                    if d is not None:
                        out.append((v["id"], d))
    return out


def with_dtors(E, s, ds):
    born = []
    ids = dict(ds)

    def end(skip=None):
        for i in reversed(born):
            if i != skip:
                call_function(E, ids[i], settle(E, E.env[i]), [])
    try:
        for x in s["body"]:
            ex(E, x)
            if x is not None and x["k"] == "Decl":
                born += [v["id"] for v in x["vars"] if v["id"] in ids]
    except (RetX, BrkX, ContX, ThrowX) as x:
        skip = None
        if isinstance(x, RetX):         # the object returned is the local one
            e = getattr(x, "e", None)
            while e is not None and e["k"] in ("Cast", "Temp", "Construct"):
                e = e["e"] if "e" in e else (e["args"][0] if e.get("copymove") and e.get("args") else None)
            if e is not None and e["k"] == "Ref":
                skip = e.get("id")
        end(skip)
        raise
    end()


def ex(E, s):
    if s is None:
        return
    k = s["k"]
    if k == "Compound":
        ds = s.get("#dtors")
        if ds is None:
            ds = s["#dtors"] = scope_dtors(E, s)
        if not ds:
            for x in s["body"]:
                ex(E, x)
            return
        with_dtors(E, s, ds)
    elif k == "Expr":
        ev(E, s["e"])
    elif k == "Decl":
        for v in s["vars"]:
            decl(E, v)
    elif k == "If":
        if s.get("init"):
            ex(E, s["init"])
        if s.get("var"):
            decl(E, s["var"])
        if E.branch(B_(E, ev(E, s["c"]))):
            ex(E, s["then"])
        else:
            ex(E, s["else"])
    elif k == "Return":
        if s["e"] is None:
            raise RetX(None)
        fr = E.env["frame"]
        v = ev(E, s["e"])
        if fr.f["rt"] and not T.is_ref(fr.f["rt"]):
            v = load(E, v)
            v = convert_to(E, v, same_type_cls(fr.f["rt"]))
        x = RetX(v)
        x.e = s["e"]
        raise x
    elif k == "Null":
        return
    elif k == "Break":
        raise BrkX()
    elif k == "Continue":
        raise ContX()
    elif k in ("While", "For", "Do", "ForRange"):
        loops.run(E, s)
    elif k == "Switch":
        switch(E, s)
    elif k in ("Case", "Default"):
        ex(E, s["sub"])
    elif k == "Try":
        try_(E, s)
    else:
        raise Unsupported("statement " + k + " " + str(s.get("cls")))


def decl(E, v):
    t = v["t"]
    if v.get("static"):
        raise Unsupported("static local")
    if v.get("bindings"):
        init = ev(E, v["init"]) if v.get("init") else None
        base = to_lv(E, load(E, init) if not T.is_ref(t) else init)
        E.env[v["id"]] = base
        for b in v["bindings"]:
            if b.get("hold"):
                decl(E, b["hold"])
                E.env[b["id"]] = E.env[b["hold"]["id"]]
            else:
                E.env[b["id"]] = ev(E, b["e"])
        return
    init = v.get("init")
    if T.is_ref(t):
        r = ev(E, init)
        if isinstance(r, RefVal):
            r = r.lv
        E.env[v["id"]] = to_lv(E, r, same_type_cls(t))
        return
    tt = same_type_cls(t)
    lv = E.newroot(UNINIT)
    lv.cls = tt
    E.env[v["id"]] = lv
    if init is None:
        E.store[lv.root] = uninit_value(E, t) if "::*)" in tt or not lib.is_lib_class(tt) else default_value(E, tt)
    else:
        init_into(E, lv, t, init)


def B_(E, v):
    v = load(E, v)
    if isinstance(v, (Ptr,)):
        return ne(v.a, 0)
    if isinstance(v, Mat):
        v = v.get(0, 0)
    if isinstance(v, (int, bool)):
        return bool(v)
    if isz(v) and not z3.is_bool(v):
        return ne(v, 0)
    if not isscalar(v):
        raise Unsupported("condition of type %s" % type(v).__name__)
    return v


def switch(E, s):
    if s.get("init"):
        ex(E, s["init"])
    v = load(E, ev(E, s["c"]))
    body = s["body"]["body"] if s["body"]["k"] == "Compound" else [s["body"]]
    # flatten labels
    items = []

    def flat(x):
        if x["k"] == "Case":
            items.append(("case", x["cv"] if "cv" in x else load(E, ev(E, x["v"]))))
            flat(x["sub"])
        elif x["k"] == "Default":
            items.append(("default", None))
            flat(x["sub"])
        else:
            items.append(("stmt", x))
    for x in body:
        flat(x)
    start = None
    dflt = None
    for i, (k, c) in enumerate(items):
        if k == "default":
            dflt = i
        if k == "case" and start is None:
            if E.branch(eq(v, c)):
                start = i
                break
    if start is None:
        start = dflt
    if start is None:
        return
    try:
        for k, x in items[start:]:
            if k == "stmt":
                ex(E, x)
    except BrkX:
        pass


EXC_BASE = {"std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
            "std::out_of_range": ["std::logic_error", "std::exception"],
            "std::invalid_argument": ["std::logic_error", "std::exception"],
            "std::domain_error": ["std::logic_error", "std::exception"]}


def try_(E, s):
    try:
        ex(E, s["body"])
    except ThrowX as t:
        tt = same_type_cls(t.t)
        for h in s["handlers"]:
            ht = same_type_cls(h["t"])
            if ht == "..." or ht == tt or ht in EXC_BASE.get(tt, []) or ht in E.prog.bases(tt):
                if h.get("var"):
                    E.env[h["var"]["id"]] = E.local(Opaque(tt), tt)
                ex(E, h["body"])
                return
        raise


# ------------------------------------------------------------------ expressions
def args_of(E, e):
    return [ev(E, a) for a in e["args"]]


def ev(E, e, target=None):
    k = e["k"]
    h = EV.get(k)
    if h is None:
        raise Unsupported("expression %s %s" % (k, e.get("cls", "")))
    if k in ("Construct", "InitList", "Cast", "InheritedCtor"):
        return h(E, e, target)
    return h(E, e)


def ev_int(E, e):
    return e["v"]


def ev_float(E, e):
    v = e["v"]
    try:
        return Fraction(v)
    except ValueError:
        raise Unsupported("float literal " + v)


def ev_str(E, e):
    return Opaque("string", e["v"])


def ev_null(E, e):
    return Ptr(0, None)


def ev_this(E, e):
    t = E.env["frame"].this
    if t is None:
        raise Unsupported("this")
    return E.mkptr(t, T.strip_const(T.pointee(e["t"])))


def ev_temp(E, e):
    tt = same_type_cls(e["t"])
    sub_ = e["e"]
    if sub_["k"] in ("Construct", "InitList") and E.prog.is_repo(tt):
        lv = E.local(uninit_value(E, tt), tt)
        init_into(E, lv, tt, sub_)
        return lv
    v = ev(E, sub_)
    if isinstance(v, LV):
        if tt.startswith(("Eigen::NoAlias<", "Eigen::ArrayWrapper<", "Eigen::MatrixWrapper<")):
            return v            # stands for the wrapped object
        v = load(E, v)
    lv = E.local(v, tt)
    return lv


def ev_ref(E, e):
    dk = e["dk"]
    if dk == "enum":
        return e["v"]
    if dk == "fn":
        return Fn([e["fn"]])
    i = e["id"]
    if i in E.env:
        v = E.env[i]
        return v
    if "cv" in e:
        return LV(("v", e["cv"]))
    if e.get("global"):
        g = ("g", e["qual"])
        if "ginit" in e and g not in E.globals_:
            E.globals_[g] = load(E, ev(E, e["ginit"]))
        if g not in E.globals_:
            E.globals_[g] = E.sym(e["vt"], "global." + e["qual"])
        return LV(g, (), same_type_cls(e["vt"]))
    raise Unsupported("unbound name " + e["name"])


def ev_member(E, e):
    mk = e["mk"]
    if mk == "enum":
        return e["v"]
    if mk == "static":
        if "cv" in e:
            return LV(("v", e["cv"]))
        g = ("g", e["qual"])
        if g not in E.globals_:
            E.globals_[g] = E.sym(e["t"], "global." + e["qual"])
        return LV(g, (), same_type_cls(e["t"]))
    if mk != "field":
        raise Unsupported("member " + e["name"])
    b = ev(E, e["b"])
    if e["arrow"]:
        b = load(E, b)
        lv = E.deref(b)
    else:
        lv = to_lv(E, b)
    lv = settle(E, lv)
    if e["name"] == "m_other" and e.get("cls", "").startswith("Eigen::"):     # constant of a nullary expression
        x = getattr(load(E, lv), "ex", None)
        if x is None or x[0] != "constant":
            raise Unsupported("functor of an expression")
        return x[1]
    r = lv.step("f", e["name"], e.get("cls"))
    if T.is_ref(e.get("ft", "")):
        v = E.read(r)
        if isinstance(v, RefVal):
            return v.lv
    r.cls = same_type_cls(e.get("ft", ""))
    return r


def settle(E, lv):
    """follow references stored at lv"""
    for _ in range(4):
        if lv.root[0] == "h" and not lv.path:
            return lv
        try:
            v = E.read(lv)
        except Unsupported:
            return lv
        if isinstance(v, RefVal):
            lv = v.lv
        else:
            return lv
    return lv


def ev_cast(E, e, target=None):
    ck = e["ck"]
    sub_ = e["e"]
    if target is not None:
        return ev(E, sub_, target=target)
    v = ev(E, sub_)
    if ck == "LValueToRValue":
        r = load(E, v)
        if isinstance(r, Uninit):
            if os_debug():
                print("uninit read", e.get("loc"))
            E.prove("initialised read of %s" % desc(sub_), False, safety=True)
            raise PathEnd()
        return r
    if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion",
              "UserDefinedConversion", "ArrayToPointerDecay", "FunctionToPointerDecay", "BitCast", "FloatingCast"):
        if ck == "ConstructorConversion" or ck == "UserDefinedConversion":
            return v
        return v
    if ck in ("IntegralCast",):
        v = load(E, v)
        if isz(v) and z3.is_bool(v):
            return I(v)
        if isinstance(v, bool):
            return int(v)
        return v
    if ck == "IntegralToBoolean":
        v = load(E, v)
        return ne(v, 0) if isz(v) and not z3.is_bool(v) else (bool(v) if not isz(v) else v)
    if ck == "FloatingToBoolean":
        return ne(load(E, v), 0)
    if ck in ("IntegralToFloating",):
        v = load(E, v)
        return R(v) if isz(v) else Fraction(int(v))
    if ck == "PointerToBoolean":
        v = load(E, v)
        if isinstance(v, Ptr):
            return ne(v.a, 0)
        return True
    if ck == "NullToPointer":
        return Ptr(0, None)
    if ck == "PointerToIntegral":       # a number of its own for every object
        v = load(E, v)
        if isinstance(v, Ptr):
            return v.a
    if ck in ("BaseToDerivedMemberPointer", "DerivedToBaseMemberPointer"):
        return load(E, v)
    if ck == "NullToMemberPointer":
        return Fn([])
    if ck == "MemberPointerToBoolean":
        v = load(E, v)
        if isinstance(v, Fn):
            return bool(v.fns)
        raise Unsupported("pointer to member")
    if ck == "ToVoid":
        return None
    if ck == "Dynamic":
        return lib.dynamic_cast(E, load(E, v) if not isinstance(v, LV) else v, e["t"])
    if ck == "FloatingToIntegral":
        v = load(E, v)
        if not isz(v):
            return int(v)
        raise Unsupported("truncation")
    raise Unsupported("cast " + ck)


def os_debug():
    import os
    return os.environ.get("VC_DEBUG")


def desc(e):
    if e["k"] == "Member":
        return e["name"]
    if e["k"] == "Ref":
        return e["name"]
    return e["k"]


def ev_unary(E, e):
    op = e["op"]
    if op == "&":
        v = ev(E, e["e"])
        if isinstance(v, Fn):
            return v
        return E.mkptr(settle(E, to_lv(E, v)), T.strip_const(T.pointee(e["t"])))
    if op == "*":
        v = load(E, ev(E, e["e"]))
        if isinstance(v, Fn):
            return v
        return E.deref(v, same_type_cls(e["t"]))
    if op in ("++", "--"):
        lv = ev(E, e["e"])
        old = load(E, lv)
        d = 1 if op == "++" else -1
        if isinstance(old, PtrD):
            new = PtrD(old.arr, simp(add(old.off, d)))
        else:
            new = simp(add(old, d))
        E.write(lv, new)
        return old if e["postfix"] else lv
    v = load(E, ev(E, e["e"]))
    if op == "!":
        return simp(Not(B_(E, v)))
    if op == "-":
        return simp(neg(v))
    if op == "+":
        return v
    raise Unsupported("unary " + op)


def arith(E, op, a, b, t):
    if isinstance(a, Iter) or isinstance(b, Iter):
        return lib.iter_arith(E, op, a, b)
    if isinstance(a, (Ptr, PtrL, PtrD)) or isinstance(b, (Ptr, PtrL, PtrD)):
        return lib.ptr_arith(E, op, a, b)
    if not isscalar(a) or not isscalar(b):
        raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))
    if op == "+":
        return simp(add(a, b))
    if op == "-":
        return simp(sub(a, b))
    if op == "*":
        return simp(mul(a, b))
    if op == "/":
        tt = same_type_cls(t)
        if tt in T.REAL_TYPES:
            E.prove("division by zero", ne(b, 0), safety=True) if getattr(E, "check_div", True) else None
            return simp(rdiv(a, b))
        E.prove("division by zero", ne(b, 0), safety=True)
        if not isz(a) and not isz(b):
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        # C++ truncates; z3 div floors for positive divisors
        if E.must(And(le(0, a), lt(0, b))):
            return simp(I(a) / I(b))
        raise Unsupported("integer division of possibly negative numbers")
    if op == "%":
        if not isz(a) and not isz(b):
            return abs(a) % abs(b) * (1 if a >= 0 else -1)
        if E.must(And(le(0, a), lt(0, b))):
            return simp(I(a) % I(b))
        raise Unsupported("integer modulo of possibly negative numbers")
    if op == "<":
        return simp(lt(a, b))
    if op == "<=":
        return simp(le(a, b))
    if op == ">":
        return simp(lt(b, a))
    if op == ">=":
        return simp(le(b, a))
    if op == "==":
        return simp(eq(a, b))
    if op == "!=":
        return simp(ne(a, b))
    if op in ("&", "|", "^"):
        if not isz(a) and not isz(b):
            a, b = int(a), int(b)
            return {"&": a & b, "|": a | b, "^": a ^ b}[op]
        if (isz(a) and z3.is_bool(a) or isinstance(a, bool)) and (isz(b) and z3.is_bool(b) or isinstance(b, bool)):
            return {"&": And(a, b), "|": Or(a, b), "^": ne(a, b)}[op]
        if T.same_bool if False else False:
            pass
        raise Unsupported("bit operation")
    raise Unsupported("operator " + op)


def ev_binary(E, e):
    op = e["op"]
    if op == "&&":
        if not E.branch(B_(E, ev(E, e["l"]))):
            return False
        return B_(E, ev(E, e["r"]))
    if op == "||":
        if E.branch(B_(E, ev(E, e["l"]))):
            return True
        return B_(E, ev(E, e["r"]))
    if op == ",":
        ev(E, e["l"])
        return ev(E, e["r"])
    if op == "=":
        r = load(E, ev(E, e["r"]))
        lv = ev(E, e["l"])
        E.write(to_lv(E, lv), r)
        return lv
    a = load(E, ev(E, e["l"]))
    b = load(E, ev(E, e["r"]))
    return arith(E, op, a, b, e["t"])


def ev_cassign(E, e):
    r = load(E, ev(E, e["r"]))
    lv = ev(E, e["l"])
    old = load(E, lv)
    op = e["op"][:-1]
    if same_type_cls(e["l"]["t"]) == "bool":
        old, r = B_(E, old), B_(E, r)
        v = Or(old, r) if op == "|" else And(old, r) if op == "&" else None
        if v is None:
            raise Unsupported("bool " + op)
        v = simp(v) if isz(v) else v
    else:
        v = arith(E, op, old, r, e.get("ct", e["t"]))
    E.write(lv, v)
    return lv


def ev_cond(E, e):
    c = B_(E, ev(E, e["c"]))
    if e["t"] == "void" or e["a"]["k"] == "Throw" or e["b"]["k"] == "Throw":
        return ev(E, e["a"]) if E.branch(c) else ev(E, e["b"])
    return ev(E, e["a"]) if E.branch(c) else ev(E, e["b"])


def ev_index(E, e):
    b = ev(E, e["b"])
    i = load(E, ev(E, e["i"]))
    if isinstance(b, LV):
        v = load(E, b)
        if isinstance(v, PtrD):
            return LV(("d",), (("d", v.arr, simp(add(v.off, i))),))
        if isinstance(v, Vec):
            return b.step("ix", simp(i))
    if isinstance(b, PtrD):
        return LV(("d",), (("d", b.arr, simp(add(b.off, i))),))
    raise Unsupported("array subscript")


def ev_zeroinit(E, e):
    return default_value(E, e["t"])


def ev_throw(E, e):
    t = same_type_cls(e["e"]["t"]) if e["e"] else "rethrow"
    raise ThrowX(t, None, e.get("loc"))


def ev_new(E, e):
    t = same_type_cls(e["at"])
    if e.get("pl") is not None:         # placement: the object is rebuilt in place
        lv = E.deref(load(E, ev(E, e["pl"])), t)
        if E.prog.is_repo(t):
            r = ev(E, e["e"], target=lv)
            if r is BUILT:
                return E.mkptr(lv, t)
        else:
            r = ev(E, e["e"])
        E.write(lv, r if isinstance(r, View) else load(E, r))
        return E.mkptr(lv, t)
    if t in T.REAL_TYPES:
        return PtrD(E.alloc(), 0)
    if E.prog.is_repo(t):
        lv = E.new_obj(t)
        if e["e"] is not None:
            r = ev(E, e["e"], target=lv)
            if r is not BUILT:
                E.write(lv, load(E, r))
        return Ptr(lv.root[1], t)
    raise Unsupported("new " + t)


def ev_delete(E, e):
    ev(E, e["e"])
    return None


def ev_lambda(E, e):
    caps = {}
    this = None
    for c in e["captures"]:
        if c.get("this"):
            this = E.env["frame"].this
        elif "id" in c:
            if c["id"] not in E.env:
                continue
            src = E.env[c["id"]]
            caps[c["id"]] = src if c["byref"] else E.local(load(E, src), getattr(src, "cls", None))
    fns = e["insts"] if e.get("generic") else [e["fnbody"]]
    return Fn(fns, caps, this)


def call_lambda(E, fn, args):
    if fn.py is not None:
        return fn.py(E, *args)
    f = None
    if len(fn.fns) == 1:
        f = fn.fns[0]
    else:
        c = [g for g in fn.fns if len(g["params"]) == len(args)]
        if len(c) == 1:
            f = c[0]
        elif c and all(json_eq(c[0], g) for g in c):
            f = c[0]
    if f is None:
        raise Unsupported("generic lambda with several instances")
    if "body" not in f:
        return call_ref(E, f, None, args, None)
    if E.depth > MAXDEPTH:
        raise Unsupported("call depth")
    env0 = E.env
    env = dict(fn.caps)
    for p, a in zip(f["params"], args):
        env[p["id"]] = bind_param(E, p["t"], a)
    env["frame"] = Frame(f, fn.this)
    E.env = env
    E.depth += 1
    try:
        try:
            ex(E, f["body"])
            return None
        except RetX as x:
            r = x.v
            if r is not None and not T.is_ref(f["rt"]):
                r = load(E, r)
            return r
    finally:
        E.env = env0
        E.depth -= 1


def json_eq(a, b):
    return a is b


def ev_stdinit(E, e):
    v = ev(E, e["e"])
    v = load(E, v)
    return v


def ev_initlist(E, e, target=None):
    t = same_type_cls(e["t"])
    if E.prog.is_repo(t):
        fs = [fr for _, fr in E.prog.fields(t)]
        lv = target
        if lv is None:
            lv = E.local(uninit_value(E, t), t)
        for fr, x in zip(fs, e["inits"]):
            flv = lv.step("f", fr["name"], t)
            if T.is_ref(fr["t"]):
                E.write(flv, RefVal(to_lv(E, ev(E, x))))
            else:
                init_into(E, flv, fr["t"], x)
        for fr in fs[len(e["inits"]):]:
            flv = lv.step("f", fr["name"], t)
            if fr.get("init"):
                init_into(E, flv, fr["t"], fr["init"])
            else:
                E.write(flv, default_value(E, fr["t"]))
        return BUILT if target is not None else E.read(lv)
    if t.endswith("]"):
        return Vec.of([load(E, ev(E, x)) for x in e["inits"]])
    if len(e["inits"]) == 1:
        return load(E, ev(E, e["inits"][0]))
    if not e["inits"]:
        return default_value(E, t)
    b = T.tmpl(t)[0]
    if b == "std::array":
        # std::array<T,N>{ {..} }
        return Vec.of([load(E, ev(E, x)) for x in e["inits"]])
    raise Unsupported("initialiser list of " + t)


def ev_construct(E, e, target=None):
    fn, cls = e["fn"], e["cls"]
    if fn["key"] in E.stubs or fn["name"] in E.stubs:
        h = E.stubs.get(fn["key"]) or E.stubs[fn["name"]]
        a = args_of(E, e)
        return h(E, target, a, fn)
    if e["copymove"] and len(e["args"]) >= 1 and not has_user_body(E, fn):
        a = ev(E, e["args"][0])
        if a is BUILT:
            return BUILT
        v = load(E, a)
        if not e["copy"]:
            lib.moved_from(E, a, cls)
        if isinstance(v, Iter):
            return v
        if target is not None and isinstance(v, Struct) and E.prog.is_repo(cls):
            for c, fr in E.prog.fields(cls):
                E.write(target.step("f", fr["name"], c), v.get(fr["name"]))
            return BUILT
        return lib.copy_value(E, v, cls)
    f = E.prog.fn.get(fn["key"])
    if f is not None:
        args = args_of(E, e)
        if target is None:
            lv = E.local(uninit_value(E, cls), cls)
            call_function(E, f, lv, args)
            return E.read(lv)
        tl = LV(target.root, target.path, cls)
        call_function(E, f, tl, args)
        return BUILT
    if E.prog.is_repo(cls):
        # implicit trivial constructor
        if not e["args"]:
            if target is not None:
                for c, fr in E.prog.fields(cls):
                    if fr.get("init"):
                        init_into(E, target.step("f", fr["name"], c), fr["t"], fr["init"])
                    elif e.get("zeroinit"):
                        E.write(target.step("f", fr["name"], c), default_value(E, fr["t"]))
                return BUILT
            v = uninit_value(E, cls)
            lv = E.local(v, cls)
            for c, fr in E.prog.fields(cls):
                if fr.get("init"):
                    init_into(E, lv.step("f", fr["name"], c), fr["t"], fr["init"])
                elif lib.is_lib_class(same_type_cls(fr["t"])):
                    E.write(lv.step("f", fr["name"], c), default_value(E, fr["t"]))
            return E.read(lv)
        raise Unsupported("constructor without body " + fn["key"])
    return lib.construct(E, e, cls)


def has_user_body(E, fn):
    f = E.prog.fn.get(fn["key"])
    return f is not None and not f.get("implicit") and not f.get("defaulted")


def ev_inherited(E, e, target=None):
    """inherited constructor: forward the parameters of the enclosing constructor"""
    fr = E.env["frame"]
    args = [E.env[p["id"]] for p in fr.f["params"]]
    f = E.prog.fn.get(e["fn"]["key"])
    if f is None:
        raise Unsupported("inherited constructor")
    call_function(E, f, target, args)
    return BUILT


def ev_mcall(E, e):
    if "fn" not in e:
        c = e["calleeExpr"]
        if c["k"] != "Binary" or c["op"] not in (".*", "->*"):
            raise Unsupported("indirect member call")
        m = load(E, ev(E, c["r"]))
        if not isinstance(m, Fn):
            raise Unsupported("pointer to member")
        if not m.fns:
            E.prove("call through a null pointer to member", False, safety=True)
            raise PathEnd()
        o = ev(E, c["l"])
        this = E.deref(load(E, o), m.fns[0].get("cls")) if c["op"] == "->*" else settle(E, o if isinstance(o, LV) else to_lv(E, o))
        return call_ref(E, m.fns[0], this, args_of(E, e), e)
    fn = e["fn"]
    o = ev(E, e["obj"])
    if e.get("arrow") or T.is_ptr(e["obj"]["t"]):
        p = load(E, o)
        this = E.deref(p, fn["cls"]) if not isinstance(p, LV) else p
    else:
        this = o if isinstance(o, LV) else to_lv(E, o)
        this = settle(E, this)
    args = args_of(E, e)
    return call_ref(E, fn, this, args, e)


def ev_opcall(E, e):
    fn = e.get("fn")
    args = args_of_op(E, e)
    if fn is None:
        raise Unsupported("operator call")
    if "cls" in fn and not fn.get("static"):
        this = args[0] if isinstance(args[0], LV) else to_lv(E, args[0])
        this = settle(E, this)
        return call_ref(E, fn, this, args[1:], e)
    return call_ref(E, fn, None, args, e)





def args_of_op(E, e):
    if e["op"] == "<<" and e["args"]:
        b = T.tmpl(e["args"][0]["t"])[0]
        if b in STREAMS:
            # text output: the operands are not evaluated (no effect on the state is modelled)
            return [ev(E, e["args"][0]), Opaque("text")]
    return args_of(E, e)


def ev_call(E, e):
    if "fn" not in e:
        c = load(E, ev(E, e["calleeExpr"]))
        if isinstance(c, Fn):
            return call_lambda(E, c, args_of(E, e))
        raise Unsupported("indirect call")
    fn = e["fn"]
    n = fn["name"]
    if n == "__assert_fail":
        raise AbortX("assert", e.get("loc"))
    if n == "std::move" or n == "std::forward":
        return ev(E, e["args"][0])
    args = args_of(E, e)
    return call_ref(E, fn, None, args, e)


def call_ref(E, fn, this, args, e):
    """call of a referenced function: stub, library model, or repo body (with dynamic dispatch)"""
    for key in (fn["key"], fn["name"]):
        if key in E.stubs:
            return E.stubs[key](E, this, args, fn)
    r = lib.call(E, fn, this, args, e)
    if r is not lib.NO:
        return r
    f = E.prog.fn.get(fn["key"])
    if fn.get("virtual") and this is not None and not (e and e.get("qualified")):
        f = dispatch(E, fn, this, f)
        for key in (f["key"], f["name"]) if f else ():
            if key in E.stubs:
                return E.stubs[key](E, this, args, fn)
    if f is None:
        if fn["name"].endswith("::operator=") and E.prog.is_repo(fn.get("cls", "")):
            src = args[0]
            E.write(this, load(E, src))
            return this
        if fn["name"].split("::")[-1].startswith("~"):
            return None
        raise Unsupported("no body for " + fn["key"])
    if f.get("defaulted") and f["name"].endswith("::operator="):
        v = load(E, args[0])
        E.write(this, v)
        return this
    return call_function(E, f, this, args)


def dispatch(E, fn, this, f):
    d = None
    if this.root[0] == "h" and not this.path:
        d = E.dyncls(this.root[1])
    elif this.root[0] == "l" and not this.path:
        d = this.cls
        v = E.store.get(this.root)
        if isinstance(v, Struct) and v.cls:
            d = v.cls
    if d is None:
        if f is None:
            raise Unsupported("virtual call on an object of unknown class: " + fn["key"])
        E.assumed.add("virtual call %s resolved to its base implementation" % fn["name"])
        return f
    suffix = fn["key"][len(fn["cls"]):] if fn["key"].startswith(fn["cls"]) else None
    for c in E.prog.bases(d):
        g = E.prog.fn.get(c + (suffix or ""))
        if g is not None:
            return g
    return f


EV = {"Int": ev_int, "Bool": ev_int, "Float": ev_float, "Str": ev_str, "Null": ev_null, "This": ev_this,
      "Temp": ev_temp, "Ref": ev_ref, "Member": ev_member, "Cast": ev_cast, "Unary": ev_unary, "Binary": ev_binary,
      "CAssign": ev_cassign, "Cond": ev_cond, "Index": ev_index, "ZeroInit": ev_zeroinit, "Throw": ev_throw,
      "New": ev_new, "Delete": ev_delete, "Lambda": ev_lambda, "StdInitList": ev_stdinit, "InitList": ev_initlist,
      "Construct": ev_construct, "InheritedCtor": ev_inherited, "MCall": ev_mcall, "OpCall": ev_opcall,
      "Call": ev_call}
