"""C10: assembled problem data. The constructors of Assignment are executed on arbitrary sources and targets, down to the
compiled assignments they create (replaced by their contract, which is proved in C11); the assembled row or bound is then
compared with the source."""
import re
from engine.run import unit
import interp
import lib
from sym import ThrowX, AbortX
from values import *
TUS = ["src/scheme/Assignment.cpp", "src/scheme/AssignmentTarget.cpp"]
DRIVER = "C10.cpp"
SOURCES = None
DRIVER_S = 20
BOUNDED = "random sources, targets, weights and substitutions, with histories of changes (source, memory and rows of the target, " \
          "order of the variables, weights, reprocessing), slacks compared at random points; sets of bounds on one variable"
ASSUMPTIONS = ["the coefficients are reals (rounding is not modelled)",
               "the lower side of a two-sided source is not above its upper side",
               "variables have a positive size",
               "the annotations of a Jacobian are right (C03) and do not change after the assignment is made",
               "which columns are written for which variable, and substitutions, are covered by the bounded driver only"]
TRUSTED = ["Eigen: blocks and segments of a Ref", "CompiledAssignmentWrapper::make and run do what C11 proves of them"]
NS = "tvm::scheme::internal::"
AS, AT = NS + "Assignment", NS + "AssignmentTarget"
LC = "tvm::constraint::abstract::LinearConstraint"
EQ_, GT, LT_, DS = range(4)
ZERO, GIVEN, OPP = range(3)
TN = ["=", ">=", "<=", "<<"]
RN = ["0", "b", "-b"]


def pick(E, cs):
    while len(cs) > 1:
        h = len(cs) // 2
        cs = cs[:h] if E.choose("case") else cs[h:]
    return cs[0]


def one(E, name, *pats, n=None):
    r = [f for f in E.prog.byname.get(name, []) if all(p in f["key"] for p in pats) and (n is None or len(f["params"]) == n)]
    if len(r) != 1:
        raise Unsupported("%d functions %s %s" % (len(r), name, pats))
    return r[0]


def buf(E, name, n, m=None):
    """memory of any size"""
    if m is None:
        f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.RealSort())
        return E.local(Mat(n, 1, lambda i, j: f(I(i))))
    f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.IntSort(), z3.RealSort())
    return E.local(Mat(n, m, lambda i, j: f(I(i), I(j))))


class Src:
    """an arbitrary linear constraint of type t and convention r"""

    def __init__(s, E, t, r):
        s.t, s.r = t, r
        s.p = E.obj(LC, "source")
        s.n = E.input("size", E.fresh("int", "size"))
        E.assume(le(1, s.n))
        s.f = {k: buf(E, k, s.n) for k in ("l", "u", "e")}
        st = E.stubs
        st["tvm::constraint::abstract::Constraint::type"] = lambda E, this, a, fn: s.t
        st["tvm::constraint::abstract::Constraint::rhs"] = lambda E, this, a, fn: s.r
        st["tvm::internal::FirstOrderProvider::size"] = lambda E, this, a, fn: s.n
        for k in "lue":
            st["tvm::constraint::abstract::Constraint::" + k] = lambda E, this, a, fn, k=k: s.use(E, k)
        s.sgn = {ZERO: 0, GIVEN: 1, OPP: -1}[r]

    def use(s, E, k):
        need = {EQ_: "e", GT: "l", LT_: "u", DS: "lu"}[s.t]
        E.prove("only the vectors of the source's type are read", k in need and s.r != ZERO)
        return s.f[k]

    def side(s, E, k, i):
        v = E.asmat(E.read(s.f[k])).get(i, 0)
        return mul(s.sgn, v)

    def lo(s, E, i):
        return s.side(E, "e", i) if s.t == EQ_ else None if s.t == LT_ else s.side(E, "l", i)

    def up(s, E, i):
        return s.side(E, "e", i) if s.t == EQ_ else None if s.t == GT else s.side(E, "u", i)


class Log:
    """contract of the compiled assignments: each one made is kept, run() applies its declared operation (C11)"""

    def __init__(s, E):
        s.ops = []
        s.E = E
        cls = NS + "CompiledAssignmentWrapper<"
        for n, fs in E.prog.byname.items():
            if n.startswith(cls) and n.endswith("::make"):
                for f in fs:
                    E.stubs[f["key"]] = s.make
            if n.startswith(cls) and n.endswith(("::CompiledAssignmentWrapper", "::operator=")):
                for f in fs:
                    E.stubs[f["key"]] = s.copy
        for t in ("MatrixAssignment", "VectorAssignment", "VectorSubstitutionAssignement"):
            for m in ("push_back", "emplace_back"):
                E.stubs["std::vector<%s, std::allocator<%s>>::%s" % (NS + t, NS + t, m)] = s.push
        s.kept = []

    def make(s, E, this, args, fn):
        m = re.search(r"::make<" + r", ".join([r"%s(\w+)" % NS] * 4), fn["key"])
        if not m:
            raise Unsupported("make " + fn["key"])
        A, W, M, F = m.groups()
        a = list(args)
        op = dict(A=A, W=W, M=M, F=F, to=s.ref(E, a.pop(0)))
        if F == "EXTERNAL":
            op["from"] = s.ref(E, a.pop(0))
        if F == "CONSTANT":
            op["from"] = interp.load(E, a.pop(0))
        if W in ("SCALAR", "DIAGONAL"):
            op["w"] = a.pop(0)         # kept by reference
        if M != "IDENTITY":
            op["m"] = s.ref(E, a.pop(0))
        if a:
            raise Unsupported("arguments of make")
        s.ops.append(op)
        return Struct(fn["rt"].replace("const ", ""), {"op": len(s.ops) - 1})

    def ref(s, E, a):
        """the window designated by an argument"""
        v = E.read(a) if isinstance(a, LV) else a
        if isinstance(v, View):
            return v
        if isinstance(a, LV):
            return a
        raise Unsupported("window %r" % (v,))

    def copy(s, E, this, args, fn):
        return interp.load(E, args[0]) if args else Struct(fn["cls"], {"op": -1})

    def push(s, E, this, args, fn):
        w = [interp.load(E, a) for a in args]
        w = [x for x in w if isinstance(x, Struct)]
        x = w[0]
        for _ in range(3):
            if "op" in x.f:
                break
            x = x.get("assignment")
        s.kept.append(x.f["op"])

    def mat(s, E, w):
        return E.asmat(w) if isinstance(w, View) else E.asmat(E.read(w))

    def run(s, E):
        for k in s.kept:
            op = s.ops[k]
            to = s.mat(E, op["to"])
            r, c = to.r, to.c

            fr = s.mat(E, op["from"]) if op["F"] == "EXTERNAL" else None
            wt = interp.load(E, op["w"]) if op["W"] == "SCALAR" else E.asmat(E.read(op["w"])) if op["W"] == "DIAGONAL" else None

            def val(i, j, op=op, to=to, fr=fr, wt=wt):
                A, W, M, F = (op[x] for x in "AWMF")
                src = lambda i, j: Fraction(0) if F == "ZERO" else op["from"] if F == "CONSTANT" else fr.get(i, j)
                if M == "IDENTITY":
                    v = src(i, j)
                elif M == "INVERSE_DIAGONAL":
                    v = op["inv"](src(i, j))
                else:
                    v = op["diag"](E, i)
                if W == "MINUS":
                    v = neg(v)
                if W == "SCALAR":
                    v = mul(wt, v)
                if W == "DIAGONAL":
                    v = mul(wt.get(i, 0), v)
                old = to.get(i, j)
                return {"COPY": v, "ADD": add(old, v), "SUB": sub(old, v), "MIN": ite(lt(v, old), v, old),
                        "MAX": ite(lt(old, v), v, old)}[A]
            yield op, to, val


@unit("AssignmentTarget", [AT + "::" + x for x in ("A", "b", "l", "u", "AFirstHalf", "ASecondHalf", "bFirstHalf", "bSecondHalf")])
def views(E):
    R_, C_ = E.fresh("int", "rows"), E.fresh("int", "cols")
    A, b, l, u = buf(E, "A", R_, C_), buf(E, "b", R_), buf(E, "l", R_), buf(E, "u", R_)
    rg = E.obj("tvm::Range", "range")
    st, dim = E.fld(rg, "start"), E.fld(rg, "dim")
    E.assume(And(le(0, st), le(0, dim), le(add(st, dim), R_), le(0, C_)))
    full = lambda m: E.local(View(m, 0, 0, E.asmat(E.read(m)).r, E.asmat(E.read(m)).c))
    two = E.choose("two-sided")
    if two:
        cr = E.fresh("int", "rhs")
        E.assume(And(le(0, cr), le(cr, 2)))
        f = [x for x in E.prog.byname[AT + "::AssignmentTarget"] if len(x["params"]) == 5 and "Type" not in x["params"][4]["t"] and "Type" not in x["params"][3]["t"]]
        k, t = tryc(E, f[0], [rg, full(A), full(l), full(u), cr])
        if k == "throw":
            E.prove("refused only without right-hand side", eq(cr, ZERO))
            return
    else:
        cr, ct = E.fresh("int", "rhs"), E.fresh("int", "type")
        E.assume(And(le(0, cr), le(cr, 2), le(0, ct), le(ct, 3)))
        f = [x for x in E.prog.byname[AT + "::AssignmentTarget"] if len(x["params"]) == 5 and "Type" in x["params"][3]["t"]]
        k, t = tryc(E, f[0], [rg, full(A), full(b), ct, cr])
        if k == "throw":
            E.prove("refused only for two sides", eq(ct, DS))
            return
        E.prove("the type is the one given", eq(E.call(AT + "::constraintType", t), ct))
    E.prove("accepted", k == "ret")
    E.prove("the convention is the one given", eq(E.call(AT + "::constraintRhs", t), cr))
    i, j = E.skolem("i"), E.skolem("j")
    c0, cd = E.fresh("int", "c0"), E.fresh("int", "cd")
    E.assume(And(le(0, c0), le(0, cd), le(add(c0, cd), C_)))

    def same(name, args, m, off, n):
        lv = E.call(AT + "::" + name, t, args)
        v = E.asmat(E.read(lv) if isinstance(lv, LV) else lv)
        E.prove(name + ": size", And(eq(v.r, n), eq(v.c, cd if args else 1)))
        E.assume(True)
        w = E.asmat(E.read(m))
        E.prove(name + ": the rows of the target", Implies(And(le(0, i), lt(i, n), le(0, j), lt(j, cd if args else 1)),
                eq(v.get(i, j), w.get(add(add(st, off), i), add(c0, j) if args else 0))))
    half = simp(I(dim) / 2)
    same("A", [c0, cd], A, 0, dim)
    same("AFirstHalf", [c0, cd], A, 0, half)
    same("ASecondHalf", [c0, cd], A, half, half)
    if two:
        same("l", [], l, 0, dim)
        same("u", [], u, 0, dim)
    else:
        same("b", [], b, 0, dim)
        same("bFirstHalf", [], b, 0, half)
        same("bSecondHalf", [], b, half, half)


def tryc(E, f, args):
    try:
        return "ret", E.construct(AT, args, fn=f["key"], heap=False)
    except ThrowX as t:
        return "throw", t.t
    except AbortX as a:
        return "abort", a.msg


def view(E, m):
    v = E.asmat(E.read(m))
    return E.local(View(m, 0, 0, v.r, v.c))


class Jac:
    """the Jacobian of the source, arbitrary, with arbitrary annotations that are right"""

    def __init__(s, E, src, cols, square):
        s.E, s.src = E, src
        s.v = None
        E.stubs["tvm::internal::FirstOrderProvider::jacobian"] = s.get
        s.cols = cols

    def get(s, E, this, args, fn):
        if s.v is None:
            s.v = E.sym(fn["rt"], "J")
            s.lv = E.local(s.v, fn["rt"].replace("const ", "").replace("&", "").strip())
        return s.lv


def heap_target(E, t, cr, rows, src):
    """memory and target of type t; rows: number of rows"""
    T = {}
    R_ = E.fresh("int", "memory_rows")
    C_ = E.fresh("int", "memory_cols")
    rg = E.obj("tvm::Range", "range")
    st, dim = E.fld(rg, "start"), E.fld(rg, "dim")
    E.assume(And(le(0, st), le(0, dim), le(add(st, dim), R_), le(0, C_)))
    T.update(R=R_, C=C_, st=st, dim=dim, rg=rg, A=buf(E, "A", R_, C_), b=buf(E, "b", R_), l=buf(E, "l", R_), u=buf(E, "u", R_))
    return T


def bound_target(E, t):
    T = heap_target(E, t, None, None, None)
    c = [f for f in E.prog.byname[AT + "::AssignmentTarget"] if len(f["params"]) == 3]
    if t == DS:
        f = [x for x in c if x["params"][1]["t"] == x["params"][2]["t"]]
        k, T["t"] = tryc(E, f[0], [T["rg"], view(E, T["l"]), view(E, T["u"])])
    else:
        f = [x for x in c if "Type" in x["params"][2]["t"] and "double, -1, 1," in x["params"][1]["t"]]
        k, T["t"] = tryc(E, f[0], [T["rg"], view(E, T["l"] if t == GT else T["u"]), t])
    E.prove("the target of a bound is made", k == "ret")
    return T


@unit("bounds", [AS + "::Assignment(bound)", AS + "::build(bound)", AS + "::addBound", AS + "::addBounds"], limit=3000)
def bounds(E):
    tt = pick(E, [GT, LT_, DS])
    t, r = pick(E, [(t, r) for t in range(4) for r in range(3) if not (t == DS and r == ZERO)])
    src = Src(E, t, r)
    T = bound_target(E, tt)
    E.assume(eq(T["dim"], src.n))
    log = Log(E)
    J = Jac(E, src, src.n, True)
    x = E.obj("tvm::Variable", "x")
    E.stubs["tvm::Variable::size"] = lambda E, this, a, fn: src.n
    E.stubs["tvm::VariableVector::contains"] = lambda E, this, a, fn: False
    E.stubs["tvm::VariableVector::variables"] = lambda E, this, a, fn: E.local(E.sym(fn["rt"], "vars"))
    E.stubs["tvm::VariableVector::operator[]"] = lambda E, this, a, fn: E.local(x)
    E.stubs["tvm::internal::FirstOrderProvider::variables"] = lambda E, this, a, fn: E.local(Opaque("variables"))
    i = E.input("component", E.skolem("i"))
    E.assume(And(le(0, i), lt(i, src.n)))
    P = "tvm::internal::MatrixProperties::"
    diag = pick(E, ["I", "-I", "D"])
    q = {"isIdentity": diag == "I", "isMinusIdentity": diag == "-I", "isDiagonal": True, "isInvertible": True}
    for k, v in q.items():
        E.stubs[P + k] = lambda E, this, a, fn, v=v: v
    ji = Fraction(1) if diag == "I" else Fraction(-1) if diag == "-I" else E.input("J(i,i)", E.fresh("real", "J"))
    E.assume(ne(ji, 0))
    if tt != DS:     # what canBeUsedAsBound has checked (C19)
        if t in (EQ_, DS):
            return
        E.assume(lt(0, ji) if t == tt else lt(ji, 0))
    E.stubs[NS + "canBeUsedAsBound"] = lambda E, this, a, fn: True
    first = E.choose("first")
    f = [c for c in E.prog.byname[AS + "::Assignment"] if len(c["params"]) == 4 and "bool" in c["params"][3]["t"]]
    a = E.construct(AS, [src.p, T["t"], x, first], fn=f[0]["key"])
    g = [k for k in E.globals_ if "big_" in str(k)]
    big = E.globals_[g[0]] if g else Fraction(10) ** 150
    xi = E.fresh("real", "x")
    E.assume(And(lt(0, big), lt(xi, big), lt(neg(big), xi), lt(mul(xi, ji), mul(big, mul(ji, ji))), lt(neg(mul(big, mul(ji, ji))), mul(xi, ji))))
    st = T["st"]
    at = lambda k: E.asmat(E.read(T[k])).get(add(st, i), 0)
    sl, su = src.lo(E, i), src.up(E, i)
    if t == DS:
        E.assume(le(sl, su))
    l0, u0 = at("l"), at("u")
    before = {k: E.asmat(E.read(T[k])) for k in ("l", "u", "b")}
    for op, to, val in log.run(E):
        if op["M"] == "GENERAL":
            op["diag"] = lambda E, i, op=op: mul(ji, op["from"])
        op["inv"] = lambda v: rdiv(v, ji)
        E.assign_mat(op["to"] if isinstance(op["to"], LV) else E.local(op["to"]), Mat(to.r, to.c, val), resize=False)
    inside = And(*([le(sl, mul(ji, xi))] if sl is not None else []), *([le(mul(ji, xi), su)] if su is not None else []))
    old = And(*([le(l0, xi)] if tt != LT_ else []), *([le(xi, u0)] if tt != GT else []))
    new = And(*([le(at("l"), xi)] if tt != LT_ else []), *([le(xi, at("u"))] if tt != GT else []))
    E.prove("the values allowed by the bounds are those the source allows%s" % ("" if first else ", among those allowed before"),
            B(new) == B(inside if first else And(inside, old)))
    k = E.skolem("k")
    for nm in ("l", "u", "b"):
        m = E.asmat(E.read(T[nm]))
        out = Or(lt(k, st), le(add(st, src.n), k))
        if (nm == "l" and tt == LT_) or (nm == "u" and tt == GT):
            out = True
        E.prove("nothing else is written", And(eq(m.r, before[nm].r), Implies(out, eq(m.get(k, 0), before[nm].get(k, 0)))))


def lin_target(E, tt, tr):
    T = heap_target(E, tt, tr, None, None)
    c = E.prog.byname[AT + "::AssignmentTarget"]
    t = lambda f, k: f["params"][k]["t"]
    if tt == DS:
        f = [x for x in c if len(x["params"]) == 5 and "RHS" in t(x, 4) and "Type" not in t(x, 3)]
        a = [T["rg"], view(E, T["A"]), view(E, T["l"]), view(E, T["u"]), tr]
    elif tr == ZERO:
        f = [x for x in c if len(x["params"]) == 3 and "-1, -1" in t(x, 1) and "Type" in t(x, 2)]
        a = [T["rg"], view(E, T["A"]), tt]
    else:
        f = [x for x in c if len(x["params"]) == 5 and "Type" in t(x, 3)]
        a = [T["rg"], view(E, T["A"]), view(E, T["b"]), tt, tr]
    k, T["t"] = tryc(E, f[0], a)
    E.prove("the target is made", k == "ret")
    return T


def legal(t, r, tt, tr):
    if t == EQ_:
        ok = tt in (EQ_, DS)
    else:
        ok = tt != EQ_
    return ok and not (r != ZERO and tr == ZERO)


def requirements(E, n):
    """arbitrary requirements: the weights are default (1) or arbitrary non negative numbers"""
    RQ = "tvm::requirements::"
    rq = E.obj(RQ + "SolvingRequirementsWithCallbacks", "req")
    q = Ctx()
    q.p = rq
    q.wdef, q.adef = E.choose("default weight"), E.choose("default anisotropic weight")
    q.w = Fraction(1) if q.wdef else E.input("weight", E.fresh("real", "weight"))
    q.scal = Fraction(1) if E.choose("no scalarization") else E.input("scalarization", E.fresh("real", "scal"))
    E.assume(And(le(0, q.w), le(0, q.scal)))
    q.aw = None
    q.an = Fraction(0) if q.adef else n
    SSR = RQ + "abstract::SingleSolvingRequirement<%s, false>"
    V = "Eigen::Matrix<double, -1, 1, 0, -1, 1>"
    q.aw = E.asmat(E.read(buf(E, "aniso", q.an)))
    q.set = lambda f, ty, n_, v: E.write(E.fld_lv(rq, f).step("f", n_, SSR % ty), v)
    q.V = V
    q.set("weight_", "double", "value_", q.w)
    q.set("weight_", "double", "default_", q.wdef)
    q.set("aWeight_", V, "value_", q.aw)
    q.set("aWeight_", V, "default_", q.adef)
    q.L2 = dict(E.prog.enums.get(RQ + "ViolationEvaluationType"))["L2"]
    q.set("evalType_", RQ + "ViolationEvaluationType", "value_", q.L2)
    E.forall(lambda k: le(0, q.aw.get(k, 0)))
    return q


def weight(E, q, i):
    """what a row is multiplied by"""
    w = mul(lib.usqrt(E, q.w), q.scal)
    return w if q.adef else mul(lib.usqrt(E, q.aw.get(i, 0)), w)


class Ctx:
    pass


class Gen:
    """one assignment, general case, made by its constructor"""

    def __init__(g, E, t, r, tt, tr, why=False):
        g.t, g.r, g.tt, g.tr = t, r, tt, tr
        src = g.src = Src(E, t, r)
        T = g.T = lin_target(E, tt, tr)
        g.n = src.n
        g.two = t == DS and tt != DS
        g.log = Log(E)
        g.jac = buf(E, "J", src.n, E.input("size of x", E.fresh("int", "nx")))
        g.J = E.asmat(E.read(g.jac))
        E.assume(le(0, g.J.c))
        c0 = g.c0 = E.fresh("int", "col0")
        E.assume(And(le(0, c0), le(add(c0, g.J.c), T["C"])))
        x = g.x = E.obj("tvm::Variable", "x")
        jv = view(E, g.jac)
        E.stubs["tvm::internal::FirstOrderProvider::jacobian"] = lambda E, this, a, fn: jv
        E.stubs["tvm::Variable::getMappingIn"] = lambda E, this, a, fn: rng(E, c0, g.J.c)
        E.stubs["tvm::VariableVector::VariableVector"] = lambda E, this, a, fn: Opaque("variables")
        g.q = requirements(E, src.n)
        f = [h for h in E.prog.byname[AS + "::addAssignments"] if len(h["params"]) == 7]
        mat = one(E, AS + "::addMatrixAssignment")
        vec = [h for h in E.prog.byname[AS + "::addVectorAssignment"] if len(h["params"]) == 5 and "internal::COPY" in h["key"]
               and "LinearConstraint::*" in h["params"][0]["t"] and "AssignmentTarget::*" in h["params"][1]["t"]]

        def contract(E, this, a, fn):
            """the vectors are assigned, and the columns of each variable: one of them is taken here"""
            ld = [interp.load(E, y) for y in a]
            vs, M, f1, v1, f2, v2, flip = ld[0], ld[1], ld[2], ld[3], ld[4], ld[5], ld[6]
            h = vec
            E.call(h[0], this, [E.local(f1), v1, flip, True, True])
            if f2.fns:
                E.call(h[0], this, [E.local(f2), v2, flip, True, True])
            E.call(mat, this, [E.local(x), M, E.local(rng(E, c0, g.J.c)), flip])
        if len(f) != 1 or not vec:
            raise Unsupported("addAssignments")
        E.stubs[f[0]["key"]] = contract
        cs = [c for c in E.prog.byname[AS + "::Assignment"] if len(c["params"]) == 6]
        g.cons = cs[0]["key"]

    def make(g, E):
        try:
            a = [g.src.p, g.q.p, g.T["t"], E.local(Opaque("variables")), Ptr(0, None), g.q.scal]
            g.a = E.construct(AS, a, fn=g.cons)
            return "ret"
        except ThrowX:
            return "throw"
        except AbortX:
            return "abort"

    def run(g, E):
        for op, to, val in g.log.run(E):
            E.assign_mat(op["to"] if isinstance(op["to"], LV) else E.local(op["to"]), Mat(to.r, to.c, val), resize=False)

    def check(g, E, when=""):
        T, n = g.T, g.n
        before = {k: E.asmat(E.read(T[k])) for k in ("A", "l", "u", "b")}
        i = E.skolem("row")
        c = E.skolem("col")
        E.assume(And(le(0, i), lt(i, n), le(0, c), lt(c, g.J.c)))
        big = [E.globals_[k] for k in E.globals_ if "big_" in str(k)]
        big = big[0] if big else Fraction(0)
        g.run(E)
        w = weight(E, g.q, i)
        ts = {ZERO: 0, GIVEN: 1, OPP: -1}[g.tr]
        cell = lambda k, r, cc=0: E.asmat(E.read(T[k])).get(r, cc)
        slo, sup = g.src.lo(E, i), g.src.up(E, i)
        rows = [(i, None)] if not g.two else [(i, 0), (add(i, n), 1)]
        sides = []
        for r, _ in rows:
            R_ = add(T["st"], r)
            a = cell("A", R_, add(g.c0, c))
            if g.tt == DS:
                tlo, tup = mul(ts, cell("l", R_)), mul(ts, cell("u", R_))
            else:
                tb = mul(ts, cell("b", R_)) if ts else Fraction(0)
                tlo, tup = (tb if g.tt in (EQ_, GT) else None), (tb if g.tt in (EQ_, LT_) else None)
            opts = []
            for s in (1, -1):
                lo = None if (slo if s > 0 else sup) is None else mul(s, mul(w, slo if s > 0 else sup))
                up = None if (sup if s > 0 else slo) is None else mul(s, mul(w, sup if s > 0 else slo))
                cs = [eq(a, mul(s, mul(w, g.J.get(i, c))))]
                got = set()
                for have, want, sg, nm in ((tlo, lo, -1, "lo"), (tup, up, 1, "up")):
                    if have is None:
                        if want is not None and not g.two:
                            cs.append(False)
                        continue
                    got.add(nm if s > 0 else {"lo": "up", "up": "lo"}[nm])
                    cs.append(eq(have, want) if want is not None else eq(have, mul(sg, mul(w, big))))
                opts.append((And(*cs), got))
            sides.append(opts)
        if not g.two:
            E.prove("the row is the weighted constraint" + when, Or(*[o[0] for o in sides[0]]))
        else:
            E.prove("the two rows are the two sides of the weighted constraint" + when, Or(*[
                And(p[0], q[0]) for p in sides[0] for q in sides[1] if p[1] | q[1] == {"lo", "up"}]))
        k, l = E.skolem("k"), E.skolem("l")
        m2 = E.asmat(E.read(T["A"]))
        E.prove("no other coefficient is written" + when, And(eq(m2.r, before["A"].r), eq(m2.c, before["A"].c), Implies(
            Or(lt(k, T["st"]), le(add(T["st"], T["dim"]), k), lt(l, g.c0), le(add(g.c0, g.J.c), l)), eq(m2.get(k, l), before["A"].get(k, l)))))
        for nm in ("l", "u", "b"):
            m2 = E.asmat(E.read(T[nm]))
            out = Or(lt(k, T["st"]), le(add(T["st"], T["dim"]), k)) if (nm == "b") == (g.tt != DS) and ts else True
            E.prove("no other element is written" + when, And(eq(m2.r, before[nm].r), Implies(out, eq(m2.get(k, 0), before[nm].get(k, 0)))))


def rng(E, a, b):
    return Struct("tvm::Range", {"start": a, "dim": b})


def mkgen(t):
    @unit("conversion of %s" % TN[t], [AS + "::Assignment", AS + "::checkTarget", AS + "::build", AS + "::processRequirements",
                                       AS + "::addVectorAssignment", AS + "::addMatrixAssignment", AS + "::createAssignment"], limit=3000)
    def f(E):
        r, tt, tr = pick(E, [(r, tt, tr) for r in range(3) for tt in range(4) for tr in range(3)
                             if not (t == DS and r == ZERO) and not (tt == DS and tr == ZERO)])
        g = Gen(E, t, r, tt, tr)
        k = g.make(E)
        E.prove("no failed assertion", k != "abort")
        need = mul(2, g.n) if g.two else g.n
        if not legal(t, r, tt, tr):
            E.prove("a convention that cannot express the source is refused", k == "throw")
            return
        if k == "throw":
            E.prove("refused only for its size", ne(g.T["dim"], need))
            return
        E.prove("accepted only with the right size", eq(g.T["dim"], need))
        g.check(E)
    return f


for t_ in range(4):
    mkgen(t_)


def reweight(E, g):
    """new weights of the same kind: a default weight stays so"""
    q = g.q
    if not q.wdef:
        q.w = E.input("new weight", E.fresh("real", "weight"))
        E.assume(le(0, q.w))
        q.set("weight_", "double", "value_", q.w)
    if not q.adef:
        q.aw = E.asmat(E.read(buf(E, "aniso", q.an)))
        q.set("aWeight_", q.V, "value_", q.aw)
        E.forall(lambda k: le(0, q.aw.get(k, 0)))


@unit("weights changed", [AS + "::onUpdateWeights", AS + "::changeScalarWeightIsAllowed", AS + "::changeVectorWeightIsAllowed"], limit=3000)
def weights(E):
    t, tt = pick(E, [(EQ_, EQ_), (EQ_, DS), (GT, GT), (GT, LT_), (LT_, DS), (LT_, LT_), (DS, GT), (DS, DS)])
    g = Gen(E, t, GIVEN, tt, OPP)
    k = g.make(E)
    if k != "ret":
        return
    E.prove("the scalar weight can be changed unless it is the default", Or(g.q.wdef, E.call(AS + "::changeScalarWeightIsAllowed", g.a)))
    E.prove("the anisotropic weight can be changed unless it is the default", Or(g.q.adef, E.call(AS + "::changeVectorWeightIsAllowed", g.a)))
    s, v = pick(E, [(True, False), (False, True), (True, True)])
    q = g.q
    if s and v:
        reweight(E, g)
    else:
        keep = q.wdef, q.adef
        q.wdef, q.adef = q.wdef or not s, q.adef or not v
        reweight(E, g)
        q.wdef, q.adef = keep
    try:
        E.call(AS + "::onUpdateWeights", g.a, [s, v])
    except ThrowX:
        E.prove("an allowed change is not refused", False)
    g.check(E)


@unit("a default weight cannot change", [AS + "::onUpdateWeights"], limit=3000)
def refused(E):
    g = Gen(E, EQ_, ZERO, EQ_, ZERO)
    if g.make(E) != "ret":
        return
    q = g.q
    if not q.wdef:
        return
    w = E.input("new weight", E.fresh("real", "weight"))
    E.assume(le(0, w))
    q.set("weight_", "double", "value_", w)
    try:
        E.call(AS + "::onUpdateWeights", g.a, [True, False])
    except ThrowX:
        E.prove("refused for a change", ne(w, 1))
        return
    q.w = w
    g.check(E, ", with the new weight if it is accepted")
