"""Trusted models of the standard library, mpark::variant and Eigen (the assumed contracts on dependencies)."""
import re
from fractions import Fraction
import z3
from values import *
import cxxtypes as T
from sym import ThrowX, AbortX, PathEnd
import interp as N
import eigen

NO = object()


def load(E, x):
    return N.load(E, x)


STRT = ("std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view")
SEQ = ("std::vector", "std::list", "std::__cxx11::list", "std::deque", "std::array", "std::initializer_list",
       "std::_Vector_base")
MAPS = ("std::map", "std::unordered_map")
SETS = ("std::set", "std::unordered_set")


def is_lib_class(t):
    b = T.tmpl(t)[0]
    return b in SEQ or b in MAPS or b in SETS or b in T.SMART or b in STRT or b.startswith("Eigen::") or \
        b in ("std::pair", "std::tuple", "mpark::variant", "std::function") or b.startswith("std::")


def empty_map(kt, vt):
    return MapV(lambda k: False, lambda k: UNINIT, kt, vt, 0)


def default_construct(E, t):
    b, ta = T.tmpl(t)
    if b in ("std::vector", "std::list", "std::__cxx11::list", "std::deque", "std::initializer_list"):
        return Vec.of([], ta[0])
    if b == "std::array":
        n = int(ta[1].rstrip("UL"))
        return Vec.of([N.uninit_value(E, ta[0]) for _ in range(n)], ta[0])
    if b in MAPS:
        return empty_map(ta[0], ta[1])
    if b in SETS:
        return empty_map(ta[0], ta[0])
    if b in T.SMART:
        return Ptr(0, T.strip_const(ta[0]))
    if b in STRT:
        return Opaque(t, "")
    if b == "std::pair":
        return Struct(t, {"first": N.default_value(E, ta[0]), "second": N.default_value(E, ta[1])})
    if b == "mpark::variant":
        return Struct("mpark::variant", {"idx": 0, "alt0": N.default_value(E, ta[0])},
                      lambda f: UNINIT)
    if b.startswith("Eigen::"):
        return eigen.construct(E, t, [])
    if b == "std::optional":
        return Struct(t, {"has": False, "val": UNINIT})
    if b == "std::function":
        return Opaque(t, "empty")
    if b.startswith("std::"):
        return Opaque(t)
    if E.prog.is_repo(t):
        ctors = [f for f in E.prog.byname.get(t + "::" + t.split("::")[-1].split("<")[0], []) if
                 f.get("ctor") and not f["params"]]
        if ctors:
            lv = E.local(N.uninit_value(E, t), t)
            N.call_function(E, ctors[0], lv, [])
            return E.read(lv)
        v = N.uninit_value(E, t)
        lv = E.local(v, t)
        for c, fr in E.prog.fields(t):
            if fr.get("init"):
                N.init_into(E, lv.step("f", fr["name"], c), fr["t"], fr["init"])
            else:
                E.write(lv.step("f", fr["name"], c), N.default_value(E, fr["t"]))
        return E.read(lv)
    raise Unsupported("default value of " + t)


def copy_value(E, v, cls):
    b = T.tmpl(cls)[0]
    if b in ("Eigen::Matrix", "Eigen::Array"):
        return E.asmat(v)
    return v


def moved_from(E, src, cls):
    """effect of a move construction/assignment on its source"""
    if not isinstance(src, LV) or src.root[0] == "v":
        return
    b = T.tmpl(cls)[0]
    if b in T.SMART and b != "std::reference_wrapper":
        E.write(src, Ptr(0, T.strip_const(T.tmpl(cls)[1][0])))
    elif b in ("std::vector", "std::list", "std::__cxx11::list"):
        E.write(src, Vec.of([], T.tmpl(cls)[1][0]))
    elif b in MAPS:
        E.write(src, empty_map(*T.tmpl(cls)[1][:2]))


def construct(E, e, cls):
    b, ta = T.tmpl(cls)
    if b in STREAMCLS or b.startswith("std::basic_") or b in STRT or b in EXC:
        return Opaque(cls, strlit(E, e))
    args = [N.ev(E, a) for a in e["args"]]
    if b.startswith("Eigen::"):
        return eigen.construct(E, cls, args)
    if b == "std::initializer_list" and not e["args"]:
        return Vec.of([], ta[0])
    if b in ("std::vector", "std::list", "std::__cxx11::list", "std::deque"):
        args = [a for a in args if not isinstance(load(E, a), Opaque)]
        if not args:
            return Vec.of([], ta[0])
        v = load(E, args[0])
        if isinstance(v, Vec):
            return Vec(v.n, v.get, ta[0], v.tag)
        if isscalar(v):
            x = load(E, args[1]) if len(args) > 1 else N.default_value(E, ta[0])
            return Vec(v, lambda k: x, ta[0])
        if isinstance(v, Iter) and len(args) == 2:
            return subrange(E, v, load(E, args[1]), ta[0])
        raise Unsupported("container constructor " + e["fn"]["key"])
    if b in MAPS + SETS:
        args = [a for a in args if not isinstance(load(E, a), Opaque)]
        if not args:
            return empty_map(ta[0], ta[1] if b in MAPS else ta[0])
        v = load(E, args[0])
        if isinstance(v, Vec) and not isz(v.n):
            m = empty_map(ta[0], ta[1] if b in MAPS else ta[0])
            for i in range(v.n):
                x = v.get(i)
                m = m.put(x.get("first"), x.get("second")) if b in MAPS else m.put(x, x)
            return m
        if isinstance(v, MapV):
            return v
        raise Unsupported("map constructor")
    if b in T.SMART:
        p = T.strip_const(ta[0])
        if not args:
            return Ptr(0, p)
        v = load(E, args[0]) if not (b == "std::reference_wrapper") else args[0]
        if b == "std::reference_wrapper":
            return E.mkptr(N.settle(E, N.to_lv(E, args[0])), p)
        if len(args) == 2 and isinstance(v, Ptr):
            v2 = load(E, args[1])
            if isinstance(v2, Ptr) and b == "std::shared_ptr":      # aliasing constructor
                return Ptr(v2.a, p, v.a)
        if isinstance(v, Ptr):
            if b == "std::shared_ptr" and T.tmpl(e["args"][0]["t"])[0] == "std::unique_ptr":
                moved_from(E, args[0], e["args"][0]["t"])
            return Ptr(v.a, p, v.own)
        if isinstance(v, PtrL):
            return v
        raise Unsupported("smart pointer from %s" % type(v).__name__)
    if b == "std::pair":
        if len(args) == 2:
            return Struct(cls, {"first": N.convert_to(E, load(E, args[0]), T.strip_const(T.cvref(ta[0]))),
                                "second": N.convert_to(E, load(E, args[1]), T.strip_const(T.cvref(ta[1])))})
        if len(args) == 1:
            v = load(E, args[0])
            if isinstance(v, Struct):
                return Struct(cls, {"first": v.get("first"), "second": v.get("second")})
        if not args:
            return default_construct(E, cls)
    if b == "mpark::variant":
        if not args:
            return default_construct(E, cls)
        mm = re.match(r"mpark::in_place_index_t<(\d+)", T.strip_const(T.cvref(e["args"][0]["t"])))
        if mm:
            return emplaced(E, ta, int(mm.group(1)), args[1:])
        v = load(E, args[0])
        i = variant_index(E, ta, e["args"][0]["t"], v)
        if isinstance(v, Struct) and v.cls == "mpark::variant":
            return v
        return Struct("mpark::variant", {"idx": i, "alt%d" % i: N.convert_to(E, v, T.strip_const(ta[i]))},
                      lambda f: UNINIT)
    if b == "std::function":
        return load(E, args[0]) if args else Opaque(cls, "empty")
    if b == "std::optional":
        if not args:
            return Struct(cls, {"has": False, "val": UNINIT})
        v = load(E, args[0])
        if isinstance(v, Opaque) and "nullopt" in v.t:
            return Struct(cls, {"has": False, "val": UNINIT})
        return Struct(cls, {"has": True, "val": v})
    if b.startswith("__gnu_cxx::__normal_iterator") or "_iterator" in b:
        return load(E, args[0])
    if b in ("std::lock_guard", "std::mutex", "std::unique_lock"):
        return Opaque(cls)
    if b.startswith("std::") and not args:
        return Opaque(cls)
    raise Unsupported("constructor " + e["fn"]["key"])


STREAMCLS = N.STREAMS
EXC = ("std::runtime_error", "std::logic_error", "std::out_of_range", "std::invalid_argument", "std::allocator",
       "std::exception", "std::locale")


def strlit(E, e):
    a = e["args"]
    if len(a) >= 1:
        x = a[0]
        for _ in range(6):
            if x["k"] in ("Cast", "Temp"):
                x = x["e"]
        if x["k"] == "Str":
            return x["v"]
    return None


def variant_index(E, ta, t, v):
    tt = T.strip_const(T.cvref(t))
    for i, a in enumerate(ta):
        if T.strip_const(a) == tt:
            return i
    if isscalar(v):
        for i, a in enumerate(ta):
            if a in T.REAL_TYPES or a in T.INT_TYPES:
                return i
    if isinstance(v, (Mat, View, MapMem)):
        m = E.asmat(v)
        for i, a in enumerate(ta):
            if a.startswith("Eigen::"):
                c = E.eigen_dims(a)[1]
                isvec = (not isz(m.c)) and m.c == 1
                if (c == 1) == isvec:
                    return i
    raise Unsupported("variant alternative of " + t)


# ------------------------------------------------------------------ iterators, pointers
def iter_vec(E, it):
    return load(E, it.lv)


def iter_lv(E, it):
    v = iter_vec(E, it)
    E.index(it.k)
    E.prove("iterator in range", And(le(0, it.k), lt(it.k, v.n)), safety=True)
    return it.lv.step("ix", simp(it.k))


def iter_arith(E, op, a, b):
    if op in ("+", "-") and isinstance(a, Iter) and isscalar(b):
        return Iter(a.lv, simp(add(a.k, b) if op == "+" else sub(a.k, b)), a.rev)
    if op == "+" and isinstance(b, Iter):
        return Iter(b.lv, simp(add(b.k, a)), b.rev)
    if isinstance(a, Iter) and isinstance(b, Iter):
        if op == "-":
            return simp(sub(a.k, b.k))
        if op == "==":
            return simp(eq(a.k, b.k))
        if op == "!=":
            return simp(ne(a.k, b.k))
        if op == "<":
            return simp(lt(a.k, b.k))
        if op == ">":
            return simp(lt(b.k, a.k))
        if op == "<=":
            return simp(le(a.k, b.k))
        if op == ">=":
            return simp(le(b.k, a.k))
    raise Unsupported("iterator operator " + op)


def ptr_eq(E, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return simp(eq(a.a, b.a))
    if isinstance(a, PtrL) and isinstance(b, PtrL):
        return simp(same_lv(a.lv, b.lv)) if not isinstance(same_lv(a.lv, b.lv), bool) else same_lv(a.lv, b.lv)
    if isinstance(a, PtrD) and isinstance(b, PtrD):
        return simp(And(eq(a.arr, b.arr), eq(a.off, b.off)))
    if isinstance(a, (PtrL, PtrD)) and isinstance(b, Ptr) or isinstance(b, (PtrL, PtrD)) and isinstance(a, Ptr):
        return False
    raise Unsupported("pointer comparison")


def ptr_arith(E, op, a, b):
    if op == "==":
        return ptr_eq(E, a, b)
    if op == "!=":
        return simp(Not(ptr_eq(E, a, b)))
    if isinstance(a, PtrD) and isscalar(b) and op in "+-":
        return PtrD(a.arr, simp(add(a.off, b) if op == "+" else sub(a.off, b)))
    if isinstance(a, PtrD) and isinstance(b, PtrD) and op == "-":
        E.prove("pointer difference within one allocation", eq(a.arr, b.arr), safety=True)
        return simp(sub(a.off, b.off))
    if op == "<" and isinstance(a, Ptr) and isinstance(b, Ptr):
        return simp(lt(a.a, b.a))
    raise Unsupported("pointer operator " + op)


def dynamic_cast(E, v, t):
    isref = not T.is_ptr(t)
    if isref:
        lv = v
        a = lv.root[1] if lv.root[0] == "h" else None
        d = E.dyncls(a) if a is not None else lv.cls
        tt = T.strip_const(T.cvref(t))
    else:
        a = v.a
        tt = T.strip_const(T.pointee(t))
        if not isz(simp(a)) and simp(a) == 0:
            return Ptr(0, tt)
        d = E.dyncls(a)
        if d is None and not isz(simp(a)) and a in E.root_of:
            d = E.store[E.root_of[a]].cls
    if d is None:
        h = E.stubs.get("dynamic_cast")
        if h is None:
            raise Unsupported("dynamic_cast of an object of unknown class to " + tt)
        ok = h(E, a, tt)
    else:
        ok = tt in E.prog.bases(d)
    if isref:
        if E.branch(ok):
            return v
        raise ThrowX("std::bad_cast")
    if isz(ok):
        ok = E.branch(ok)
    return Ptr(v.a, tt, v.own) if ok else Ptr(0, tt)


# ------------------------------------------------------------------ calls
def call(E, fn, this, args, e):
    name = fn["name"]
    cls = fn.get("cls")
    if cls:
        if cls.startswith("Eigen::"):
            return eigen.method(E, fn, this, args, e)
        b = T.tmpl(cls)[0]
        if b.startswith("tvm::"):
            return NO
        m = name[len(cls) + 2:] if name.startswith(cls) else name.split("::")[-1]
        h = methods(b)
        if h is None:
            if cls.startswith("(lambda") or cls == "lambda":
                f = load(E, this)
                if isinstance(f, Fn):
                    return N.call_lambda(E, f, args)
            if cls.startswith("std::") or cls.startswith("__gnu_cxx") or cls.startswith("mpark"):
                raise Unsupported("library method " + fn["key"][:200])
            return NO
        return h(E, m, this, args, fn, e)
    if name.startswith("Eigen::"):
        return eigen.function(E, fn, args, e)
    if name.startswith("std::") or name.startswith("mpark::") or name.startswith("__gnu_cxx::") or name in FUNCS or \
            "::" not in name:
        h = FUNCS.get(name)
        if h is None and name.startswith("__gnu_cxx::operator"):
            h = FUNCS.get("std::" + name[len("__gnu_cxx::"):])
        if h is None and name.startswith("std::__detail::operator"):
            h = FUNCS.get("std::" + name[len("std::__detail::"):])
        if h is None:
            if name.startswith("std::") or name.startswith("mpark::") or "::" not in name:
                raise Unsupported("library function " + fn["key"][:200])
            return NO
        return h(E, args, fn, e)
    return NO


def methods(b):
    if b in SEQ:
        return m_seq
    if b in MAPS or b in SETS:
        return m_map
    if b in T.SMART or b in ("std::__shared_ptr", "std::__shared_ptr_access", "std::__weak_ptr",
                             "std::enable_shared_from_this", "std::__enable_shared_from_this"):
        return m_smart
    if "iterator" in b:
        return m_iter
    if b == "std::queue":
        return m_queue
    if b == "std::pair":
        return m_pair
    if b == "std::function":
        return m_function
    if b == "std::optional":
        return m_optional
    if b in STRT or b in STREAMCLS or b.startswith("std::basic_") or b.startswith("std::__cxx11::basic_"):
        return m_string
    if b == "mpark::variant":
        return m_variant
    if b == "std::_Bit_reference":
        return m_bit
    if b.startswith("std::numeric_limits"):
        return m_limits
    if b in ("std::exception", "std::runtime_error", "std::hash", "std::less", "std::_Optional_base",
             "std::_Optional_base_impl", "std::_Optional_payload"):
        return m_misc
    return None


def m_queue(E, m, this, args, fn, e):
    """std::queue: its underlying container"""
    lv = N.settle(E, N.to_lv(E, this)).step("f", "c", fn["cls"])
    lv.cls = T.tmpl(fn["cls"])[1][1]
    if m == "push" or m == "emplace":
        return m_seq(E, "push_back", lv, args, fn, e)
    if m == "pop":
        return m_seq(E, "pop_front", lv, args, fn, e)
    if m in ("front", "back", "empty", "size"):
        return m_seq(E, m, lv, args, fn, e)
    raise Unsupported("queue::" + m)


def m_bit(E, m, this, args, fn, e):
    """reference to an element of a vector<bool>: the element itself"""
    lv = load(E, this).get("lv").lv
    if m == "operator bool":
        return E.read(lv)
    if m == "operator=":
        v = load(E, args[0])
        E.write(lv, E.read(v.get("lv").lv) if isinstance(v, Struct) else v)
        return this
    raise Unsupported("vector<bool>::reference::" + m)


def m_misc(E, m, this, args, fn, e):
    if m == "what":
        return Opaque("string")
    raise Unsupported("library method " + fn["key"])


def m_limits(E, m, this, args, fn, e):
    t = T.tmpl(fn["cls"])[1][0]
    if t in T.REAL_TYPES:
        return E.input_const("limit_" + m) if hasattr(E, "input_const") else z3.Real("std_limit_" + m)
    if m == "max":
        bits = {"int": 31, "long": 63, "long long": 63, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64}
        return 2 ** bits[t] - 1 if t in bits else z3.Int("std_limit_max_" + t.replace(" ", "_"))
    return z3.Int("std_limit_" + m + t.replace(" ", "_"))


def m_string(E, m, this, args, fn, e):
    if m in ("empty",):
        v = load(E, this)
        if isinstance(v, Opaque) and v.d is not None:
            return v.d == ""
        return E.fresh("bool", "strempty")
    if m in ("operator<<", "operator=", "operator+="):
        return this
    if m in ("size", "length"):
        x = E.fresh("int", "strlen")
        E.fact(x >= 0)
        return x
    if m in ("str", "c_str", "operator basic_string_view", "operator std::basic_string_view<char>", "data", "substr") or \
            m.startswith("operator"):
        v = load(E, this)
        return v if isinstance(v, Opaque) else Opaque("string")
    if m in ("setf", "precision", "width", "append", "flush"):
        return this
    raise Unsupported("string method " + m)


def m_function(E, m, this, args, fn, e):
    v = load(E, this)
    if m == "operator()":
        if isinstance(v, Fn):
            return N.call_lambda(E, v, args)
        h = E.stubs.get("std::function::operator()")
        if h:
            return h(E, this, args, fn)
        raise Unsupported("call of an unknown std::function")
    if m == "operator=":
        E.write(this, load(E, args[0]))
        return this
    if m == "operator bool":
        if isinstance(v, Fn):
            return True
        if isinstance(v, Opaque) and v.d == "empty":
            return False
    raise Unsupported("std::function::" + m)


def m_optional(E, m, this, args, fn, e):
    v = load(E, this)
    if m in ("operator bool", "has_value"):
        return v.get("has")
    if m in ("value", "operator*", "operator->"):
        E.prove("optional has a value", v.get("has"), safety=True)
        lv = this.step("f", "val", None)
        return lv if m != "operator->" else E.mkptr(lv)
    if m == "operator=":
        x = load(E, args[0])
        E.write(this, Struct(v.cls, {"has": True, "val": x}) if not (isinstance(x, Struct) and "has" in x.f) else x)
        return this
    if m == "value_or":
        has = v.get("has")
        a = load(E, args[0])
        if has is True or has is not False and E.branch(has):
            return v.get("val")
        return N.convert_to(E, a, T.strip_const(T.tmpl(fn["cls"])[1][0]))
    raise Unsupported("optional::" + m)


def m_pair(E, m, this, args, fn, e):
    if m == "operator=":
        v = load(E, args[0])
        E.write(this, v)
        return this
    raise Unsupported("pair::" + m)


def m_variant(E, m, this, args, fn, e):
    v = load(E, this)
    ta = T.tmpl(fn["cls"])[1]
    if m == "index":
        return v.get("idx")
    if m == "operator=":
        x = load(E, args[0])
        if isinstance(x, Struct) and x.cls == "mpark::variant":
            E.write(this, x)
        else:
            i = variant_index(E, ta, e["args"][1]["t"], x)
            E.write(this, Struct("mpark::variant", {"idx": i, "alt%d" % i: N.convert_to(E, x, T.strip_const(ta[i]))},
                                 lambda f: UNINIT))
        return this
    mm = re.search(r"::emplace<(\d+)", fn["key"])
    if m.startswith("emplace") and mm:
        E.write(this, emplaced(E, ta, int(mm.group(1)), args))
        return this.step("f", "alt%d" % int(mm.group(1)), "mpark::variant")
    raise Unsupported("variant::" + m)


def emplaced(E, ta, i, args):
    if len(args) != 1:
        raise Unsupported("construction of a variant alternative from %d arguments" % len(args))
    return Struct("mpark::variant", {"idx": i, "alt%d" % i: N.convert_to(E, load(E, args[0]), T.strip_const(ta[i]))},
                  lambda f: UNINIT)


def m_smart(E, m, this, args, fn, e):
    b, ta = T.tmpl(fn["cls"])
    p = T.strip_const(ta[0]) if ta else None
    v = load(E, this) if this is not None else None
    if m == "get":
        if b == "std::reference_wrapper":
            return E.deref(v, p)
        if isinstance(v, Ptr):
            return Ptr(v.a, p)
        return v
    if m == "operator->":
        if isinstance(v, Ptr):
            return Ptr(v.a, p)
        return v
    if m == "operator*":
        return E.deref(v, p)
    if m.startswith("operator bool"):
        return ne(v.a, 0) if isinstance(v, Ptr) else True
    if m == "get_deleter":
        return E.local(Opaque("deleter"))
    if m == "reset":
        x = load(E, args[0]) if args else Ptr(0, p)
        E.write(this, Ptr(x.a, p) if isinstance(x, Ptr) else x)
        return None
    if m == "operator=":
        x = load(E, args[0])
        if isinstance(x, Ptr):
            E.write(this, Ptr(x.a, p, x.own))
            t = e["args"][1]["t"] if e else ""
            if e and e["args"][1].get("vc") == "x" and T.is_smart(t):
                src = args[0]
                if not (isinstance(src, LV) and same_lv(src, this) is True):
                    moved_from(E, src, T.strip_const(T.cvref(t)))
        else:
            E.write(this, x)
        return this
    if m == "release":
        E.write(this, Ptr(0, p))
        return v
    if m == "lock":
        return Ptr(v.a, p)
    if m == "expired":
        return eq(v.a, 0)
    if m == "swap":
        o = load(E, args[0])
        E.write(this, o)
        E.write(args[0], v)
        return None
    if m in ("shared_from_this", "weak_from_this"):
        return E.mkptr(this, p)
    if m in ("operator T &", "operator T&") or m.startswith("operator "):
        return E.deref(v, p)
    if m == "use_count":
        x = E.fresh("int", "use_count")
        return x
    if m == "owner_before":
        raise Unsupported("owner_before")
    raise Unsupported("smart pointer method " + m)


def m_iter(E, m, this, args, fn, e):
    it = load(E, this)
    if isinstance(it, MIter):
        if m == "operator*" or m == "operator->":
            E.prove("map iterator is dereferenceable", Not(it.isend), safety=True)
            mv = load(E, it.lv)
            if T_isset(mv):
                lv = E.local(it.key)
                return lv if m == "operator*" else E.mkptr(lv)
            lv = LV(("mp", (it.lv, it.key)))
            lv = map_entry(E, it)
            return lv if m == "operator*" else PtrL(lv)
        if m == "operator=":
            E.write(this, load(E, args[0]))
            return this
        raise Unsupported("map iterator " + m)
    if not isinstance(it, Iter):
        raise Unsupported("iterator " + m)
    d = -1 if it.rev else 1
    if m == "operator*":
        return iter_lv(E, it)
    if m == "operator->":
        return E.mkptr(iter_lv(E, it))
    if m in ("operator++", "operator--"):
        dd = 1 if m == "operator++" else -1
        new = Iter(it.lv, simp(add(it.k, dd)), it.rev)
        E.write(this, new)
        return it if args else this
    if m in ("operator+", "operator-"):
        x = load(E, args[0])
        return iter_arith(E, m[8:], it, x)
    if m in ("operator+=", "operator-="):
        x = load(E, args[0])
        E.write(this, iter_arith(E, m[8], it, x))
        return this
    if m in ("operator==", "operator!="):
        return iter_arith(E, m[8:], it, load(E, args[0]))
    if m == "operator[]":
        return iter_lv(E, iter_arith(E, "+", it, load(E, args[0])))
    if m == "operator=":
        E.write(this, load(E, args[0]))
        return this
    if m == "base":
        return it
    raise Unsupported("iterator " + m)


def T_isset(mv):
    return mv.kt is not None and mv.kt == mv.vt and mv.get.__name__ == "<lambda>" and False


class _Entry:
    pass


def map_entry(E, it):
    """location of the pair designated by a map iterator: first is the key, second aliases the map entry"""
    lv = E.local(Struct("std::pair", {"first": it.key, "second": RefVal(it.lv.step("key", it.key))}))
    return lv


def subrange(E, a, b, et):
    v = iter_vec(E, a)
    n = simp(sub(b.k, a.k))
    g = v.get
    k0 = a.k
    return Vec(n, lambda k: g(simp(add(k0, k))), et)


def seq(E, this):
    v = load(E, this)
    if isinstance(v, Uninit):
        raise Unsupported("uninitialised container")
    if not isinstance(v, Vec):
        raise Unsupported("container expected, got %s" % type(v).__name__)
    return v


DANGLING = -(10 ** 9)


def same_place(a, b):
    return a.root == b.root and len(a.path) == len(b.path) and all(
        x[0] == y[0] and (x[1] is y[1] or simp(eq(x[1], y[1])) is True if x[0] == "ix" else x[1] == y[1]) for x, y in zip(a.path, b.path))


def list_moves(E, this, fn, move):
    """iterators of a list follow their element: the positions held by local variables change with it"""
    if not T.tmpl(fn["cls"])[0] in ("std::list", "std::__cxx11::list"):
        return
    for root, v in list(E.store.items()):
        if isinstance(v, Iter) and isinstance(v.lv, LV) and same_place(v.lv, this):
            E.store[root] = Iter(v.lv, simp(move(v.k)), v.rev)


def m_seq(E, m, this, args, fn, e):
    if m == "operator=":
        v = load(E, args[0])
        if not isinstance(v, Vec):
            raise Unsupported("container assignment")
        E.write(this, v)
        if e and e["args"][1].get("vc") == "x" and isinstance(args[0], LV):
            moved_from(E, args[0], fn["cls"])
        return this
    v = seq(E, this)
    if m == "size":
        return v.n
    if m == "empty":
        return eq(v.n, 0)
    if m in ("begin", "cbegin"):
        return Iter(this, 0)
    if m in ("end", "cend"):
        return Iter(this, v.n)
    if m in ("operator[]", "at"):
        k = simp(load(E, args[0]))
        E.index(k)
        c = And(le(0, k), lt(k, v.n))
        if m == "at":
            if not E.branch(c):
                raise ThrowX("std::out_of_range")
        else:
            E.prove("index in range", c, safety=True)
        if e and "_Bit_reference" in e.get("t", ""):
            return Struct("std::_Bit_reference", {"lv": PtrL(this.step("ix", k))})
        return this.step("ix", k)
    if m == "front":
        E.prove("front of a non-empty container", lt(0, v.n), safety=True)
        return this.step("ix", 0)
    if m == "back":
        E.prove("back of a non-empty container", lt(0, v.n), safety=True)
        k = simp(sub(v.n, 1))
        E.index(k)
        return this.step("ix", k)
    if m in ("push_back", "emplace_back"):
        et = v.et or T.tmpl(fn["cls"])[1][0]
        x = make_elem(E, et, args, fn, e)
        E.write(this, v.push(x))
        E.index(v.n)
        return this.step("ix", v.n) if m == "emplace_back" else None
    if m in ("push_front", "emplace_front"):
        et = v.et or T.tmpl(fn["cls"])[1][0]
        x = make_elem(E, et, args, fn, e)
        E.write(this, v.insert(0, x))
        return None
    if m == "pop_front":
        E.prove("pop_front of a non-empty container", lt(0, v.n), safety=True)
        E.write(this, v.erase(0))
        return None
    if m == "pop_back":
        E.prove("pop_back of a non-empty container", lt(0, v.n), safety=True)
        E.write(this, Vec(simp(sub(v.n, 1)), v.get, v.et, v.tag))
        return None
    if m == "clear":
        E.write(this, Vec.of([], v.et))
        return None
    if m in ("reserve", "shrink_to_fit"):
        return None
    if m == "resize":
        n = simp(load(E, args[0]))
        et = v.et or T.tmpl(fn["cls"])[1][0]
        x = load(E, args[1]) if len(args) > 1 else N.default_value(E, et)
        g, n0 = v.get, v.n

        def get(k):
            c = simp(lt(k, n0))
            if c is True:
                return g(k)
            if c is False:
                return x
            return ite(c, g(k), x)
        E.write(this, Vec(n, get, v.et))
        return None
    if m == "assign":
        n = simp(load(E, args[0]))
        if isscalar(n):
            x = load(E, args[1])
            E.write(this, Vec(n, lambda k: x, v.et))
            return None
    if m == "fill":
        x = load(E, args[0])
        E.write(this, Vec(v.n, lambda k: x, v.et))
        return None
    if m == "insert":
        it = load(E, args[0])
        x = load(E, args[1])
        if len(args) == 3 and isinstance(x, Iter):
            y = load(E, args[2])
            s = subrange(E, x, y, v.et)
            if E.must(eq(it.k, v.n)):
                n0, g0 = v.n, v.get
                E.write(this, Vec(simp(add(n0, s.n)), lambda k: ite(lt(k, n0), g0(k), s.get(simp(sub(k, n0)))), v.et))
                return Iter(this, n0)
            raise Unsupported("range insertion")
        k = it.k
        E.index(k)
        E.write(this, v.insert(k, x))
        list_moves(E, this, fn, lambda q: ite(le(k, q), add(q, 1), q))
        return Iter(this, k)
    if m == "emplace":
        it = load(E, args[0])
        k = it.k
        et = v.et or T.tmpl(fn["cls"])[1][0]
        x = make_elem(E, et, args[1:], fn, None)
        E.write(this, v.insert(k, x))
        list_moves(E, this, fn, lambda q: ite(le(k, q), add(q, 1), q))
        return Iter(this, k)
    if m == "erase":
        it = load(E, args[0])
        E.index(it.k)
        if len(args) == 2:
            it2 = load(E, args[1])
            cnt = simp(sub(it2.k, it.k))
            E.prove("erased range", And(le(0, it.k), le(it.k, it2.k), le(it2.k, v.n)), safety=True)
            k = it.k
            E.write(this, v.erase(k, cnt))
            list_moves(E, this, fn, lambda q: ite(le(it2.k, q), sub(q, cnt), ite(lt(q, k), q, DANGLING)))
            return Iter(this, k)
        k = it.k
        E.prove("erased iterator in range", And(le(0, k), lt(k, v.n)), safety=True)
        E.write(this, v.erase(k))
        list_moves(E, this, fn, lambda q: ite(lt(k, q), sub(q, 1), ite(lt(q, k), q, DANGLING)))
        return Iter(this, k)
    if m == "swap":
        o = load(E, args[0])
        E.write(this, o)
        E.write(args[0], v)
        return None
    if m in ("rbegin", "rend", "crbegin", "crend"):
        raise Unsupported("reverse iterators")
    raise Unsupported("container method " + m)


def make_elem(E, et, args, fn, e):
    et0 = T.strip_const(T.cvref(et))
    if len(args) == 1:
        a = args[0]
        v = load(E, a)
        if isinstance(v, Struct) and v.cls == et0 or not E.prog.is_repo(et0):
            b = T.tmpl(et0)[0]
            if b == "mpark::variant" and not (isinstance(v, Struct) and v.cls == "mpark::variant"):
                raise Unsupported("variant element")
            v = N.convert_to(E, v, et0)
            # moves
            if fn and fn["pt"] and fn["pt"][0].endswith("&&") and isinstance(a, LV) and b in T.SMART + ("std::vector",):
                if e and e.get("args") and e["args"][0].get("vc") == "x":
                    moved_from(E, a, et0)
            if isinstance(v, Ptr) and b in T.SMART:
                return Ptr(v.a, T.strip_const(T.tmpl(et0)[1][0]), v.own)
            return v
    b, ta = T.tmpl(et0)
    if b == "std::pair" and len(args) == 2:
        return Struct(et0, {"first": load(E, args[0]), "second": load(E, args[1])})
    if b in T.SMART and len(args) == 0:
        return Ptr(0, ta[0])
    if not E.prog.is_repo(et0):
        if not args:
            return N.default_value(E, et0)
        if b.startswith("Eigen::"):
            return eigen.construct(E, et0, args)
        raise Unsupported("emplace of " + et0)
    r = E.prog.rec.get(et0)
    cands = [f for f in E.prog.byname.get(et0 + "::" + et0.split("::")[-1].split("<")[0], []) if
             f.get("ctor") and len(f["params"]) == len(args)]
    cands = pick_ctor(E, cands, args)
    if not cands:
        raise Unsupported("emplace constructor of " + et0)
    lv = E.local(N.uninit_value(E, et0), et0)
    N.call_function(E, cands[0], lv, args)
    return E.read(lv)


def arg_kind(E, a):
    v = load(E, a)
    if isscalar(v):
        return "num"
    if isinstance(v, (Mat, View, MapMem)):
        return "mat"
    if isinstance(v, Ptr):
        return "ptr"
    if isinstance(v, Struct):
        return v.cls
    if isinstance(v, Vec):
        return "vec"
    if isinstance(v, Opaque):
        return "opaque"
    return type(v).__name__


def par_kind(E, t):
    t0 = T.strip_const(T.cvref(t))
    if t0 in T.INT_TYPES or t0 in T.REAL_TYPES or t0 == "bool" or t0 in E.prog.enums:
        return "num"
    b = T.tmpl(t0)[0]
    if b.startswith("Eigen::"):
        return "mat"
    if T.is_ptr(t0) or b in T.SMART:
        return "ptr"
    if b in SEQ:
        return "vec"
    if b in STRT or b == "std::function":
        return "opaque"
    if b == "mpark::variant":
        return "mpark::variant"
    return t0


def pick_ctor(E, cands, args):
    if len(cands) <= 1:
        return cands
    ks = [arg_kind(E, a) for a in args]
    r = [f for f in cands if all(par_kind(E, p["t"]) == k or (k == "Fn" and par_kind(E, p["t"]) == "opaque") or
                                 (k in E.prog.rec and par_kind(E, p["t"]) in E.prog.bases(k))
                                 for p, k in zip(f["params"], ks))]
    if len(r) > 1:
        # exact Ptr class
        r2 = []
        for f in r:
            ok = True
            for p, a in zip(f["params"], args):
                v = load(E, a)
                if isinstance(v, Ptr) and v.cls:
                    t0 = T.strip_const(T.cvref(p["t"]))
                    pc = T.strip_const(T.pointee(t0)) if T.is_ptr(t0) else T.strip_const(T.tmpl(t0)[1][0])
                    if pc not in E.prog.bases(v.cls):
                        ok = False
            if ok:
                r2.append(f)
        r = r2
    return r if len(r) == 1 else []


def keyval(E, x):
    v = load(E, x)
    return v


def m_map(E, m, this, args, fn, e):
    h = E.stubs.get("map " + m)
    if h is not None:
        return h(E, this, args, fn)
    if m == "operator=":
        v = load(E, args[0])
        if isinstance(v, Vec) and not isz(v.n):
            b, ta = T.tmpl(fn["cls"])
            new = empty_map(ta[0], ta[1] if b in MAPS else ta[0])
            for i in range(v.n):
                x = v.get(i)
                new = new.put(x.get("first"), x.get("second")) if b in MAPS else new.put(x, x)
            v = new
        if not isinstance(v, MapV):
            raise Unsupported("map assigned from something else")
        E.write(this, v)
        return this
    v = load(E, this)
    if not isinstance(v, MapV):
        raise Unsupported("map expected")
    if m in ("find",):
        k = keyval(E, args[0])
        return MIter(this, k, simp(Not(v.has(k))))
    if m in ("end", "cend"):
        return MIter(this, None, True)
    if m in ("count", "contains"):
        k = keyval(E, args[0])
        c = v.has(k)
        return simp(I(c)) if isz(c) else int(c)
    if m == "at":
        k = keyval(E, args[0])
        if not E.branch(v.has(k)):
            raise ThrowX("std::out_of_range")
        return this.step("key", k)
    if m == "operator[]":
        k = keyval(E, args[0])
        if not E.branch(v.has(k)):
            E.write(this, v.put(k, N.default_value(E, v.vt or T.tmpl(fn["cls"])[1][1])))
        return this.step("key", k)
    if m in ("insert", "emplace", "try_emplace", "insert_or_assign"):
        if v.kt == v.vt and T.tmpl(fn["cls"])[0] in SETS:
            k = keyval(E, args[0])
            had = v.has(k)
            E.write(this, v.put(k, k))
            return Struct("std::pair", {"first": MIter(this, k, False), "second": Not(had)})
        if len(args) == 1:
            p = load(E, args[0])
            k, x = p.get("first"), p.get("second")
        else:
            k = keyval(E, args[0])
            vt = v.vt or T.tmpl(fn["cls"])[1][1]
            x = make_elem(E, vt, args[1:], None, None)
        had = v.has(k)
        if m != "insert_or_assign" and E.branch(had):
            return Struct("std::pair", {"first": MIter(this, k, False), "second": False})
        E.write(this, v.put(k, x))
        return Struct("std::pair", {"first": MIter(this, k, False), "second": True})
    if m == "erase":
        k = load(E, args[0])
        if isinstance(k, MIter):
            E.prove("erased map iterator is dereferenceable", Not(k.isend), safety=True)
            E.write(this, v.erase(k.key))
            return MIter(this, None, True)
        had = v.has(k)
        E.write(this, v.erase(k))
        return simp(I(had)) if isz(had) else int(had)
    if m == "clear":
        E.write(this, empty_map(v.kt, v.vt))
        return None
    if m == "size" and v.n is not None:
        return v.n
    if m == "empty" and v.n is not None:
        return eq(v.n, 0)
    raise Unsupported("map method " + m)


# ------------------------------------------------------------------ functions
def f_make_shared(E, args, fn, e):
    t = T.strip_const(T.tmpl(fn["rt"])[1][0])
    if t in T.REAL_TYPES:
        raise Unsupported("make_shared of a scalar")
    lv = E.new_obj(t)
    name = t + "::" + t.split("::")[-1].split("<")[0]
    for key in (name,):
        if key in E.stubs:
            E.stubs[key](E, lv, args, fn)
            return Ptr(lv.root[1], t)
    cands = [f for f in E.prog.byname.get(name, []) if f.get("ctor") and len(f["params"]) == len(args)]
    cands = pick_ctor(E, cands, args)
    if not cands and len(args) == 1 and isinstance(load(E, args[0]), Struct) and load(E, args[0]).cls == t:
        # trivial copy or move
        v = load(E, args[0])
        for c, fr in E.prog.fields(t):
            E.write(lv.step("f", fr["name"], c), v.get(fr["name"]))
        return Ptr(lv.root[1], t)
    if not cands:
        raise Unsupported("make_shared constructor of %s/%d" % (t, len(args)))
    N.call_function(E, cands[0], lv, args)
    return Ptr(lv.root[1], t)


def f_ptrcast(E, args, fn, e):
    v = load(E, args[0])
    t = T.strip_const(T.tmpl(fn["rt"])[1][0])
    if "dynamic" in fn["name"]:
        return dynamic_cast(E, v, t + " *")
    return Ptr(v.a, t, v.own)


def f_eqop(op):
    def h(E, args, fn, e):
        a, b = load(E, args[0]), load(E, args[1])
        if isinstance(a, Iter) or isinstance(b, Iter):
            return iter_arith(E, op, a, b)
        if isinstance(a, MIter) and isinstance(b, MIter):
            if b.key is None:
                r = a.isend
            elif a.key is None:
                r = b.isend
            else:
                r = Or(And(a.isend, b.isend), And(Not(a.isend), Not(b.isend), key_eq(a.key, b.key)))
            return simp(r if op == "==" else Not(r))
        if isinstance(a, (Ptr, PtrL, PtrD)) or isinstance(b, (Ptr, PtrL, PtrD)):
            return ptr_arith(E, op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.d is not None and b.d is not None:
                return (a.d == b.d) == (op == "==")
            return E.fresh("bool", "streq")
        if isinstance(a, Struct) and isinstance(b, Struct) and op in ("==", "!=") and "first" in a.f:
            r = And(key_eq(a.get("first"), b.get("first")), key_eq(a.get("second"), b.get("second")))
            return simp(r if op == "==" else Not(r))
        if isscalar(a) and isscalar(b):
            return N.arith(E, op, a, b, "bool")
        raise Unsupported("library operator" + op + " on %s" % type(a).__name__)
    return h


def f_minmax(mx):
    def h(E, args, fn, e):
        if len(args) == 2:
            a, b = load(E, args[0]), load(E, args[1])
            c = lt(a, b)
            return simp(ite(c, b, a)) if mx else simp(ite(lt(b, a), b, a))
        raise Unsupported("std::min/max")
    return h


def f_minmax2(E, args, fn, e):
    if len(args) != 2:
        raise Unsupported("std::minmax")
    a, b = load(E, args[0]), load(E, args[1])
    if not (isscalar(a) and isscalar(b)):
        raise Unsupported("std::minmax")
    c = lt(b, a)
    return Struct("std::pair", {"first": simp(ite(c, b, a)), "second": simp(ite(c, a, b))})


def f_abs(E, args, fn, e):
    a = load(E, args[0])
    return simp(ite(lt(a, 0), neg(a), a))


def usqrt(E, a):
    if not isz(a):
        from math import isqrt
        f = Fraction(a)
        if f >= 0 and isqrt(f.numerator) ** 2 == f.numerator and isqrt(f.denominator) ** 2 == f.denominator:
            return Fraction(isqrt(f.numerator), isqrt(f.denominator))
    f = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
    s = f(R(a))
    E.fact_once(s, z3.Implies(R(a) >= 0, z3.And(s >= 0, s * s == R(a))))
    return s


def f_sqrt(E, args, fn, e):
    return usqrt(E, load(E, args[0]))


def f_advance(d):
    def h(E, args, fn, e):
        it = load(E, args[0])
        n = load(E, args[1]) if len(args) > 1 else 1
        if isinstance(it, Iter):
            return Iter(it.lv, simp(add(it.k, mul(n, d))), it.rev)
        raise Unsupported("std::next")
    return h


def f_distance(E, args, fn, e):
    a, b = load(E, args[0]), load(E, args[1])
    return simp(sub(b.k, a.k))


def f_opaque(E, args, fn, e):
    return Opaque(fn["rt"])


def f_ostream(E, args, fn, e):
    return args[0]


def f_swap(E, args, fn, e):
    a, b = load(E, args[0]), load(E, args[1])
    E.write(args[0], b)
    E.write(args[1], a)
    return None


def f_tuple(E, args, fn, e):
    return Opaque("std::tuple&", list(args))


def f_get(E, args, fn, e):
    """mpark::get<T>/get<I>, std::get"""
    tu = load(E, args[0])
    if isinstance(tu, Opaque) and tu.t == "std::tuple&":
        i = fn["key"][len(fn["name"]) + 1:].split(",")[0].rstrip("UL")
        if i.isdigit():
            return tu.d[int(i)]
    t = T.strip_const(T.cvref(e["args"][0]["t"]))
    b, ta = T.tmpl(t)
    if b == "mpark::variant":
        k = fn["key"]
        inner = k[len(fn["name"]) + 1:]
        # first template argument
        first = T.tmpl("x<" + match_angle(inner) + ">")[1][0]
        i = None
        if first.rstrip("UL").isdigit():
            i = int(first.rstrip("UL"))
        else:
            for j, a in enumerate(ta):
                if T.strip_const(a) == T.strip_const(first):
                    i = j
        if i is None:
            raise Unsupported("variant get " + first)
        v = load(E, args[0])
        isptr = False
        if not E.branch(eq(v.get("idx"), i)):
            raise ThrowX("mpark::bad_variant_access")
        return N.to_lv(E, args[0]).step("f", "alt%d" % i, None)
    if b == "std::pair" or b == "std::tuple":
        k = fn["key"][len(fn["name"]) + 1:]
        i = T.tmpl("x<" + match_angle(k) + ">")[1][0].rstrip("UL")
        if i.isdigit():
            lv = N.to_lv(E, args[0])
            return lv.step("f", ("first", "second")[int(i)] if b == "std::pair" else "e" + i, None)
    raise Unsupported("get on " + t)


def match_angle(s):
    d, out = 1, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
            if d == 0:
                return out
        out += ch
    return out


def f_find(E, args, fn, e):
    import loops
    a, b, x = load(E, args[0]), load(E, args[1]), load(E, args[2])
    return loops.search(E, a, b, lambda lv: N_eq(E, load(E, lv), x))


def N_eq(E, a, b):
    if isinstance(a, Ptr) or isinstance(a, PtrL):
        return ptr_eq(E, a, b)
    if isscalar(a) and isscalar(b):
        return eq(a, b)
    if isinstance(a, Struct) and a.cls and E.prog.is_repo(a.cls):
        f = [g for g in E.prog.byname.get(a.cls + "::operator==", [])]
        if len(f) == 1:
            return N.B_(E, N.call_function(E, f[0], E.local(a, a.cls), [E.local(b, a.cls)]))
        f = [g for g in E.prog.fn.values() if g["name"].endswith("operator==") and len(g["params"]) == 2 and
             a.cls in g["params"][0]["t"]]
        if len(f) == 1:
            return N.B_(E, N.call_function(E, f[0], None, [E.local(a, a.cls), E.local(b, a.cls)]))
    if isinstance(a, Struct) and "first" in a.f:
        return And(N_eq(E, a.get("first"), b.get("first")), N_eq(E, a.get("second"), b.get("second")))
    raise Unsupported("equality of %s" % type(a).__name__)


def callable_of(E, x):
    f = load(E, x)
    if isinstance(f, Fn):
        return lambda *a: N.call_lambda(E, f, list(a))
    raise Unsupported("callable")


def f_find_if(E, args, fn, e):
    import loops
    a, b = load(E, args[0]), load(E, args[1])
    f = callable_of(E, args[2])
    neg_ = fn["name"].endswith("_not")
    return loops.search(E, a, b, lambda lv: simp(Not(N.B_(E, f(lv)))) if neg_ else N.B_(E, f(lv)))


def f_any_of(kind):
    def h(E, args, fn, e):
        import loops
        a, b = load(E, args[0]), load(E, args[1])
        f = callable_of(E, args[2])
        if kind == "all":
            it = loops.search(E, a, b, lambda lv: simp(Not(N.B_(E, f(lv)))))
            return simp(eq(it.k, b.k))
        it = loops.search(E, a, b, lambda lv: N.B_(E, f(lv)))
        r = ne(it.k, b.k)
        return simp(r if kind == "any" else Not(r))
    return h


def f_fill(mode):
    """std::fill, std::fill_n, std::iota on a sequence"""
    def h(E, args, fn, e):
        a = load(E, args[0])
        if not isinstance(a, Iter) or a.rev or a.lv is None:
            raise Unsupported("filled range")
        x = load(E, args[2])
        n = load(E, args[1]) if mode == "n" else sub(load(E, args[1]).k, a.k)
        v = load(E, a.lv)
        lo, hi, g = a.k, simp(add(a.k, n)), v.get
        E.prove("filled range inside the container", And(le(0, lo), le(hi, v.n)), safety=True)

        def get(k):
            return ite(And(le(lo, k), lt(k, hi)), add(x, sub(k, lo)) if mode == "iota" else x, g(k))
        E.write(a.lv, Vec(v.n, get, v.et, v.tag))
        return Iter(a.lv, hi) if mode == "n" else None
    return h


def f_for_each(E, args, fn, e):
    import loops
    a, b = load(E, args[0]), load(E, args[1])
    f = callable_of(E, args[2])
    loops.each(E, a, b, lambda lv: f(lv))
    return load(E, args[2])


def f_invoke(E, args, fn, e):
    v = load(E, args[0])
    if isinstance(v, Fn):
        return N.call_lambda(E, v, args[1:])
    h = E.stubs.get("std::function::operator()")
    if h:
        return h(E, args[0], args[1:], fn)
    raise Unsupported("std::invoke")


def f_exchange(E, args, fn, e):
    o = load(E, args[0])
    E.write(args[0], load(E, args[1]))
    return o


def f_holds(E, args, fn, e):
    t = T.strip_const(T.cvref(e["args"][0]["t"]))
    b, ta = T.tmpl(t)
    first = T.tmpl("x<" + match_angle(fn["key"][len(fn["name"]) + 1:]) + ">")[1][0]
    for j, a in enumerate(ta):
        if T.strip_const(a) == T.strip_const(first):
            return eq(load(E, args[0]).get("idx"), j)
    raise Unsupported("holds_alternative")


def f_make_pair(E, args, fn, e):
    return Struct(T.strip_const(fn["rt"]), {"first": load(E, args[0]), "second": load(E, args[1])})


def f_addressof(E, args, fn, e):
    return E.mkptr(N.settle(E, N.to_lv(E, args[0])))


def f_ref(E, args, fn, e):
    return E.mkptr(N.settle(E, N.to_lv(E, args[0])))


def f_nothing(E, args, fn, e):
    return None


def f_begin(which):
    def h(E, args, fn, e):
        v = load(E, args[0])
        return Iter(args[0], 0 if which == "begin" else v.n)
    return h


FUNCS = {"std::make_shared": f_make_shared, "std::make_unique": f_make_shared,
         "std::static_pointer_cast": f_ptrcast, "std::dynamic_pointer_cast": f_ptrcast,
         "std::const_pointer_cast": f_ptrcast, "std::swap": f_swap, "std::exchange": f_exchange,
         "std::minmax": f_minmax2, "std::min": f_minmax(False), "std::max": f_minmax(True), "std::abs": f_abs, "abs": f_abs, "fabs": f_abs,
         "std::fabs": f_abs, "sqrt": f_sqrt, "std::sqrt": f_sqrt, "std::next": f_advance(1), "std::prev": f_advance(-1),
         "std::distance": f_distance, "std::to_string": f_opaque, "std::endl": f_ostream, "std::operator<<": f_ostream,
         "std::operator+": f_opaque, "std::find": f_find, "std::find_if": f_find_if, "std::find_if_not": f_find_if,
         "std::fill": f_fill("fill"), "std::fill_n": f_fill("n"), "std::iota": f_fill("iota"),
         "std::any_of": f_any_of("any"), "std::all_of": f_any_of("all"), "std::none_of": f_any_of("none"),
         "std::for_each": f_for_each, "std::invoke": f_invoke, "mpark::get": f_get, "std::get": f_get,
         "mpark::holds_alternative": f_holds, "std::make_pair": f_make_pair, "std::addressof": f_addressof,
         "std::ref": f_ref, "std::forward_as_tuple": f_tuple,
         "tvm::utils::internal::override_is_malloc_allowed_": f_nothing,
         "tvm::utils::internal::restore_is_malloc_allowed_": f_nothing, "std::cref": f_ref, "std::as_const": lambda E, a, fn, e: a[0],
         "std::begin": f_begin("begin"), "std::end": f_begin("end"),
         "std::move_if_noexcept": lambda E, a, fn, e: a[0]}
for _op in ("==", "!=", "<", "<=", ">", ">=", "-", "+"):
    FUNCS["std::operator" + _op] = f_eqop(_op) if _op not in "+-" else (
        lambda E, args, fn, e, _o=_op: iter_arith(E, _o, load(E, args[0]), load(E, args[1]))
        if isinstance(load(E, args[0]), Iter) else Opaque(fn["rt"]))
