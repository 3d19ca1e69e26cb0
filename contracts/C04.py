"""C04: Variable. Family invariant FAM relating a variable to its super-variable, primitive and derivative; the
constructors, dot and subvariable establish it, the observers are verified from it."""
from engine.run import unit
from values import *
import loops

TUS = ["src/Variable.cpp", "src/Space.cpp"]
DRIVER = "C04.cpp"
DRIVER_FLAGS = ["-fsanitize=address"]
SOURCES = ["Space.cpp", "Variable.cpp", "VariableVector.cpp", "internal/ObjWithId.cpp"]
DRIVER_S = 8
BOUNDED = "random families of derivatives and sub-variables of variables of up to 13 elements (Euclidean or not), reads and " \
          "writes through every view, in any order of creation and destruction, under the address sanitizer"
ASSUMPTIONS = ["names of variables are not part of the property", "a variable is owned by a shared pointer"]
TRUSTED = ["ownership by shared pointers (aliasing) is exercised by the bounded check only"]
BUDGET = 100
V = "tvm::Variable"
BASE = z3.Function("base", z3.IntSort(), z3.IntSort())      # ghost: base primitive
OWNER = z3.Function("owner", z3.IntSort(), z3.IntSort())    # ghost: the super-variable a buffer belongs to


def at(a):
    return Ptr(a, V)


def f(E, v, n):
    return E.fld(v, n)


def dn(E, v):
    return E.fld(v, "derivativeNumber_")


def spc(E, v, which="space_"):
    s = E.fld(v, which)
    return s.get("mSize_"), s.get("rSize_"), s.get("tSize_")


def val(E, v):
    return E.fld(v, "value_")


def size_of(E, v, which="space_"):
    m, r, t = spc(E, v, which)
    return ite(eq(dn(E, v), 0), r, t)


def fam(E, v):
    """FAM(v) for one variable"""
    d, sup, prim, der, m = dn(E, v), f(E, v, "superVariable_"), f(E, v, "primitive_"), f(E, v, "derivative_"), val(E, v)
    ms, rs, ts = spc(E, v)
    mh, rh, th = spc(E, v, "shift_")
    S, P, D = at(sup.a), at(prim.a), at(der.a)
    return And(
        le(0, d), le(0, ms), le(0, rs), le(0, ts), le(0, mh), le(0, rh), le(0, th), le(ms, rs), le(ms, ts), le(mh, rh), le(mh, th), lt(0, rs), lt(0, ts), ne(sup.a, v.a),
        eq(m.r, size_of(E, v)), eq(m.c, 1),
        Implies(eq(sup.a, 0), And(eq(OWNER(I(m.arr)), v.a), eq(rh, 0), eq(th, 0), eq(mh, 0), eq(m.arr, f(E, v, "memory_").arr),
                                  eq(m.off, f(E, v, "memory_").off))),
        Implies(ne(sup.a, 0), And(eq(f(E, S, "superVariable_").a, 0), eq(dn(E, S), d), eq(m.arr, val(E, S).arr),
                                  eq(m.off, add(val(E, S).off, size_of(E, v, "shift_"))), eq(OWNER(I(m.arr)), sup.a),
                                  le(add(rs, rh), spc(E, S)[1]), le(add(ts, th), spc(E, S)[2]), le(add(ms, mh), spc(E, S)[0]))),
        eq(eq(prim.a, 0), eq(d, 0)), eq(BASE(I(v.a)), ite(eq(d, 0), v.a, BASE(I(prim.a)))),
        Implies(ne(d, 0), And(eq(dn(E, P), sub(d, 1)), eq(f(E, P, "derivative_").a, v.a), eq(spc(E, P)[0], ms),
                              eq(spc(E, P)[1], rs), eq(spc(E, P)[2], ts), eq(spc(E, P, "shift_")[1], rh),
                              eq(spc(E, P, "shift_")[2], th), eq(eq(sup.a, 0), eq(f(E, P, "superVariable_").a, 0)))),
        Implies(ne(der.a, 0), And(eq(dn(E, D), add(d, 1)), eq(f(E, D, "primitive_").a, v.a))))


def var(E, name):
    v = E.obj(V, name)
    know(E, v)
    E.input("order of " + name, dn(E, v))
    return v


def know(E, v):
    """assume FAM for v and for what it refers to"""
    E.assume(Or(eq(v.a, 0), fam(E, v)))
    s = at(f(E, v, "superVariable_").a)
    E.assume(Or(eq(s.a, 0), fam(E, s)))


def stubs(E):
    E.stubs[V + "::shared_from_this"] = lambda E, this, args, fn: E.mkptr(this, V) if isinstance(this, LV) else this


def sup(E, v):
    s = f(E, v, "superVariable_").a
    return ite(eq(s, 0), v.a, s)


def lo(E, v):
    """segment of the super-variable, from the accumulated shift"""
    return ite(eq(f(E, v, "superVariable_").a, 0), 0, size_of(E, v, "shift_"))


@unit("Variable::contains / intersects", [V + "::contains", V + "::intersects", V + "::subvariableRange", V + "::superVariable"])
def nesting(E):
    stubs(E)
    x, y = var(E, "x"), var(E, "y")
    a, b = lo(E, x), lo(E, y)
    m, n = val(E, x).r, val(E, y).r
    fam_ = eq(sup(E, x), sup(E, y))
    E.prove("one family and order exactly when one buffer", eq(fam_, eq(val(E, x).arr, val(E, y).arr)))
    if E.choose():
        r = B(E.call(V + "::contains", x, [E.deref(y)]))
        E.prove("contains exactly the nested segments", eq(r, And(fam_, le(a, b), le(add(b, n), add(a, m)))))
        E.prove("contract used by C05", eq(r, And(eq(val(E, x).arr, val(E, y).arr), le(val(E, x).off, val(E, y).off),
                                                  le(add(val(E, y).off, n), add(val(E, x).off, m)))))
    else:
        r = B(E.call(V + "::intersects", x, [E.deref(y)]))
        E.prove("intersects exactly the overlapping segments", eq(r, And(fam_, lt(a, add(b, n)), lt(b, add(a, m)))))
        E.prove("contract used by C05", eq(r, And(eq(val(E, x).arr, val(E, y).arr), lt(val(E, x).off, add(val(E, y).off, n)),
                                                  lt(val(E, y).off, add(val(E, x).off, m)))))


@unit("Variable ranges and relations", [V + "::subvariableRange", V + "::tSubvariableRange", V + "::isSubvariable",
                                        V + "::isSuperVariable", V + "::isSuperVariableOf", V + "::superVariable",
                                        V + "::isBasePrimitive", V + "::size", V + "::isEuclidean"])
def ranges(E):
    stubs(E)
    x, y = var(E, "x"), var(E, "y")
    if E.choose():
        r = E.call(V + "::subvariableRange", x)
        E.prove("range within the super-variable", And(eq(r.get("start"), lo(E, x)), eq(r.get("dim"), val(E, x).r)))
    elif E.choose():
        r = E.call(V + "::tSubvariableRange", x)
        E.prove("tangent range", And(eq(r.get("start"), ite(eq(f(E, x, "superVariable_").a, 0), 0, spc(E, x, "shift_")[2])),
                                     eq(r.get("dim"), spc(E, x)[2])))
    elif E.choose():
        E.prove("super-variable", eq(E.call(V + "::superVariable", x).a, sup(E, x)))
        E.prove("is a sub-variable", eq(B(E.call(V + "::isSubvariable", x)), ne(f(E, x, "superVariable_").a, 0)))
        E.prove("is a super-variable", eq(B(E.call(V + "::isSuperVariable", x)), eq(f(E, x, "superVariable_").a, 0)))
        E.prove("is the super-variable of", eq(B(E.call(V + "::isSuperVariableOf", x, [E.deref(y)])),
                                               eq(f(E, y, "superVariable_").a, x.a)))
    else:
        E.prove("size", eq(E.call(V + "::size", x), size_of(E, x)))
        E.prove("base primitive exactly at order zero", eq(B(E.call(V + "::isBasePrimitive", x)), eq(dn(E, x), 0)))
        eu = eq(E.fld(x, "space_").get("type_"), E.prog.enums["tvm::Space::Type"]["Euclidean"])
        E.prove("derivatives are Euclidean", eq(B(E.call(V + "::isEuclidean", x)), Or(ne(dn(E, x), 0), eu)))


@unit("Variable::basePrimitive", [V + "::basePrimitive", V + "::shared_from_this"])
def base(E):
    x = var(E, "x")
    E.stubs[V + "::shared_from_this"] = lambda E, this, args, fn: E.mkptr(this, V)

    def inv(E, k, L):
        if len(L) != 1 or not isinstance(L[0], Ptr):
            return False
        p = at(L[0].a)
        return And(ne(p.a, 0), eq(dn(E, p), sub(dn(E, x), k)), eq(BASE(I(p.a)), BASE(I(x.a))), Implies(ne(p.a, 0), fam(E, p)))

    def step(E, k, L):
        # FAM holds of every variable of the (unchanged) state: here, of the next primitive
        p = at(L[0].a)
        q = at(f(E, p, "primitive_").a)
        E.fact(Or(eq(q.a, 0), fam(E, q)))
        return True
    E.loopinv[V + "::basePrimitive"] = loops.Ind(("k times the primitive", inv), ("family", step))
    r = E.call(V + "::basePrimitive", x)
    E.prove("the base primitive", eq(r.a, BASE(I(x.a))))


@unit("Variable::isDerivativeOf / isPrimitiveOf", [V + "::isDerivativeOf", V + "::isPrimitiveOf"])
def relations(E):
    x, y = var(E, "x"), var(E, "y")
    E.stubs[V + "::basePrimitive"] = lambda E, this, args, fn: at(BASE(I(E.mkptr(this, V).a)))
    same = eq(BASE(I(x.a)), BASE(I(y.a)))
    E.prove("strict derivative", eq(B(E.call(V + "::isDerivativeOf", x, [E.deref(y)])), And(same, lt(dn(E, y), dn(E, x)))))
    E.prove("strict primitive", eq(B(E.call(V + "::isPrimitiveOf", x, [E.deref(y)])), And(same, lt(dn(E, x), dn(E, y)))))


def cellv(E, v, i):
    m = val(E, v)
    return E.dread(m.arr, simp(add(m.off, i)))


def writes(E, x, lo_, n, get, run):
    """run writes exactly the cells lo_ .. lo_+n-1 of x, with get"""
    a, o, i = E.fresh("int", "a"), E.fresh("int", "o"), E.fresh("int", "i")
    old = E.dread(a, o)
    m = val(E, x)
    run()
    E.prove("the value given is stored", Implies(And(le(0, i), lt(i, n)), eq(cellv(E, x, simp(add(lo_, i))), get(i))))
    E.prove("nothing else is written", Or(And(eq(a, m.arr), le(add(m.off, lo_), o), lt(o, add(add(m.off, lo_), n))),
                                          eq(E.dread(a, o), old)))


def setter(E, n):
    c = [g for g in E.prog.byname.get(V + "::set", []) if len(g["params"]) == n]
    if len(c) != 1:
        raise Unsupported("set/%d" % n)
    return c[0]["key"]


def refused(E, ok, run):
    old = E.heap.get(("D",))
    k, r = run()
    E.prove("refused exactly when it does not fit", eq(k == "ret", ok))
    return k == "ret"


@unit("Variable::set(x)", [V + "::set"])
def set1(E):
    x = var(E, "x")
    u = E.sym("Eigen::Matrix<double, -1, 1>", "u")
    out = []

    def run():
        out.append(refused(E, eq(u.r, val(E, x).r), lambda: E.call_x(setter(E, 1), x, [u])))
    a, o, i = E.fresh("int", "a"), E.fresh("int", "o"), E.fresh("int", "i")
    old, m = E.dread(a, o), val(E, x)
    run()
    if out[0]:
        E.prove("the value given is stored", Implies(And(le(0, i), lt(i, u.r)), eq(cellv(E, x, i), u.at(i, 0))))
        E.prove("nothing else is written", Or(And(eq(a, m.arr), le(m.off, o), lt(o, add(m.off, m.r))), eq(E.dread(a, o), old)))
    else:
        E.prove("nothing is written on refusal", eq(E.dread(a, o), old))


@unit("Variable::set(i, x)", [V + "::set"])
def set2(E):
    x = var(E, "x")
    p, u = E.input("i", E.sym("int", "p")), E.sym("double", "u")
    a, o = E.fresh("int", "a"), E.fresh("int", "o")
    old, m = E.dread(a, o), val(E, x)
    if refused(E, And(le(0, p), lt(p, m.r)), lambda: E.call_x(setter(E, 2), x, [p, u])):
        E.prove("the value given is stored", eq(cellv(E, x, p), u))
        E.prove("nothing else is written", Or(And(eq(a, m.arr), eq(o, add(m.off, p))), eq(E.dread(a, o), old)))
    else:
        E.prove("nothing is written on refusal", eq(E.dread(a, o), old))


@unit("Variable::set(i, n, x)", [V + "::set"])
def set3(E):
    x = var(E, "x")
    p, n = E.input("i", E.sym("int", "p")), E.input("n", E.sym("int", "n"))
    u = E.sym("Eigen::Matrix<double, -1, 1>", "u")
    a, o, i = E.fresh("int", "a"), E.fresh("int", "o"), E.fresh("int", "i")
    old, m = E.dread(a, o), val(E, x)
    if refused(E, And(le(0, p), le(add(p, n), m.r), eq(u.r, n)), lambda: E.call_x(setter(E, 3), x, [p, n, u])):
        E.prove("the value given is stored", Implies(And(le(0, i), lt(i, n)), eq(cellv(E, x, simp(add(p, i))), u.at(i, 0))))
        E.prove("nothing else is written", Or(And(eq(a, m.arr), le(add(m.off, p), o), lt(o, add(add(m.off, p), n))),
                                              eq(E.dread(a, o), old)))
    else:
        E.prove("nothing is written on refusal", eq(E.dread(a, o), old))


@unit("Variable::setZero / value", [V + "::setZero", V + "::value"])
def setz(E):
    x = var(E, "x")
    a, o, i = E.fresh("int", "a"), E.fresh("int", "o"), E.fresh("int", "i")
    old, m = E.dread(a, o), val(E, x)
    r = E.call([g for g in E.prog.byname[V + "::value"] if not g["params"]][0]["key"], x)
    r = E.asmat(E.read(r) if isinstance(r, LV) else r)
    E.prove("the value read is that of the buffer", And(eq(r.r, m.r), Implies(
        And(le(0, i), lt(i, m.r)), eq(r.at(i, 0), cellv(E, x, i)))))
    E.call(V + "::setZero", x)
    E.prove("all zero", Implies(And(le(0, i), lt(i, m.r)), eq(cellv(E, x, i), 0)))
    E.prove("nothing else is written", Or(And(eq(a, m.arr), le(m.off, o), lt(o, add(m.off, m.r))), eq(E.dread(a, o), old)))


def ctor(E, *types):
    c = [g for g in E.prog.byname.get(V + "::Variable", []) if len(g["params"]) == len(types) and
         all(t in p["t"] for t, p in zip(types, g["params"]))]
    if len(c) != 1:
        raise Unsupported("constructor %s" % (types,))
    return c[0]["key"]


def spaceval(E, name):
    s = E.sym("tvm::Space", name)
    E.assume(And(*[le(0, s.get(x)) for x in ("mSize_", "rSize_", "tSize_")]))
    E.assume(And(le(s.get("mSize_"), s.get("rSize_")), le(s.get("mSize_"), s.get("tSize_"))))
    return s


def new(E, args, key):
    lv = E.construct(V, args, fn=key)
    return at(lv.root[1])


@unit("Variable::Variable(Space)", [V + "::Variable"])
def ctor_base(E):
    stubs(E)
    s = spaceval(E, "space")
    a, o, i = E.fresh("int", "a"), E.fresh("int", "o"), E.fresh("int", "i")
    old = E.dread(a, o)
    v = new(E, [s, Opaque("std::string_view")], ctor(E, "Space", "string_view"))
    m = val(E, v)
    E.prove("a base primitive, alone in its family", And(
        eq(dn(E, v), 0), eq(f(E, v, "primitive_").a, 0), eq(f(E, v, "superVariable_").a, 0), eq(f(E, v, "derivative_").a, 0)))
    E.prove("its size is the representation size", And(eq(m.r, s.get("rSize_")), eq(spc(E, v)[1], s.get("rSize_")),
                                                       eq(spc(E, v)[2], s.get("tSize_"))))
    E.prove("it has its own buffer", And(eq(m.arr, f(E, v, "memory_").arr), eq(m.off, f(E, v, "memory_").off),
                                         le(NEWB(), m.arr)))
    E.prove("no shift", And(*[eq(x, 0) for x in spc(E, v, "shift_")]))
    E.prove("it is zero", Implies(And(le(0, i), lt(i, m.r)), eq(cellv(E, v, i), 0)))
    E.prove("no other value is written", Or(eq(a, m.arr), eq(E.dread(a, o), old)))


def NEWB():
    from sym import NEW_BASE
    return NEW_BASE


@unit("Variable::Variable(derivative)", [V + "::Variable"])
def ctor_der(E):
    stubs(E)
    p = var(E, "primitive")
    d_sup = E.obj(V, "derivative of the super-variable")
    S = at(f(E, p, "superVariable_").a)
    know(E, d_sup)
    # contract of dot on the super-variable
    E.assume(Implies(ne(S.a, 0), And(eq(dn(E, d_sup), add(dn(E, S), 1)), eq(f(E, d_sup, "primitive_").a, S.a),
                                     eq(f(E, d_sup, "superVariable_").a, 0),
                                     *[eq(x, y) for x, y in zip(spc(E, d_sup), spc(E, S))])))
    E.stubs["tvm::dot"] = lambda E, this, args, fn: d_sup
    E.stubs[V + "::basePrimitive"] = lambda E, this, args, fn: p
    a, o, i = E.fresh("int", "a"), E.fresh("int", "o"), E.fresh("int", "i")
    E.assume(lt(a, NEWB()))
    old = E.dread(a, o)
    v = new(E, [p, E.sym("bool", "autoName")], ctor(E, "Variable *", "bool"))
    m = val(E, v)
    issub = ne(S.a, 0)
    E.prove("order and primitive", And(eq(dn(E, v), add(dn(E, p), 1)), eq(f(E, v, "primitive_").a, p.a),
                                       eq(f(E, v, "derivative_").a, 0)))
    E.prove("same space and shift", And(*[eq(x, y) for w in ("space_", "shift_") for x, y in zip(spc(E, v, w), spc(E, p, w))]))
    E.prove("its size is the tangent size", eq(m.r, spc(E, p)[2]))
    E.prove("the derivative of a sub-variable is a view of the derivative of the super-variable", Implies(issub, And(
        eq(f(E, v, "superVariable_").a, d_sup.a), eq(m.arr, val(E, d_sup).arr),
        eq(m.off, add(val(E, d_sup).off, spc(E, p, "shift_")[2])))))
    E.prove("otherwise it has its own buffer, zero", Implies(Not(issub), And(
        eq(f(E, v, "superVariable_").a, 0), le(NEWB(), m.arr),
        isinstance(f(E, v, "memory_"), PtrD) and eq(m.arr, f(E, v, "memory_").arr),
        Implies(And(le(0, i), lt(i, m.r)), eq(cellv(E, v, i), 0)))))
    E.prove("no existing value is altered", eq(E.dread(a, o), old))


@unit("Variable::Variable(sub-variable)", [V + "::Variable"])
def ctor_sub(E):
    stubs(E)
    S = var(E, "super")
    E.assume(And(eq(f(E, S, "superVariable_").a, 0), eq(dn(E, S), 0)))
    s, h = spaceval(E, "space"), spaceval(E, "shift")
    a, o = E.fresh("int", "a"), E.fresh("int", "o")
    old = E.dread(a, o)
    tok = Struct(V + "::make_shared_token", {})
    v = new(E, [tok, S, s, Opaque("std::string_view"), h], ctor(E, "token", "shared_ptr", "Space", "string_view", "Space"))
    m = val(E, v)
    E.prove("a base primitive whose super-variable is the one given", And(
        eq(dn(E, v), 0), eq(f(E, v, "primitive_").a, 0), eq(f(E, v, "superVariable_").a, S.a), eq(f(E, v, "derivative_").a, 0)))
    E.prove("space and shift are those given", And(*[
        eq(E.fld(v, w).get(x), y.get(x)) for w, y in (("space_", s), ("shift_", h)) for x in ("mSize_", "rSize_", "tSize_")]))
    E.prove("a view of the segment", And(eq(m.arr, val(E, S).arr), eq(m.off, add(val(E, S).off, h.get("rSize_"))),
                                         eq(m.r, s.get("rSize_"))))
    E.prove("no value is altered", eq(E.dread(a, o), old))


@unit("Variable::subvariable", [V + "::subvariable"])
def subvar(E):
    stubs(E)
    x = var(E, "x")
    X = var(E, "super")
    E.assume(eq(X.a, sup(E, x)))
    b = E.obj(V, "base")
    know(E, b)
    E.assume(eq(b.a, BASE(I(X.a))))
    E.stubs[V + "::basePrimitive"] = lambda E, this, args, fn: at(BASE(I(E.mkptr(this, V).a)))
    got = []

    def make(E, this, args, fn):
        got.append([E.read(x) if isinstance(x, LV) and x.root[0] == "l" and not isinstance(x, Ptr) else x for x in args])
        return None
    E.stubs[V + "::Variable"] = make
    dots = []

    def dot(E, this, args, fn):
        p = E.read(args[0]) if isinstance(args[0], LV) else args[0]
        n = E.read(args[1]) if isinstance(args[1], LV) else args[1]
        dots.append((p, n))
        return E.obj(V, "derived")
    E.stubs["tvm::dot"] = dot
    s, h = spaceval(E, "space"), spaceval(E, "shift")

    def prod(E, this, args, fn):
        x, y = [E.read(q) if isinstance(q, LV) else q for q in args]
        return Struct("tvm::Space", dict([(n, simp(add(x.get(n), y.get(n)))) for n in ("mSize_", "rSize_", "tSize_")] +
                                         [("type_", E.fresh("int", "type"))]))

    def leq(E, this, args, fn):
        x, y = E.read(this), E.read(args[0]) if isinstance(args[0], LV) else args[0]
        return simp(And(*[le(x.get(n), y.get(n)) for n in ("mSize_", "rSize_", "tSize_")]))
    E.stubs["tvm::operator*"] = prod
    E.stubs["tvm::Space::operator<="] = leq
    c = [g for g in E.prog.byname[V + "::subvariable"] if len(g["params"]) == 4]
    if len(c) != 1:
        raise Unsupported("subvariable")
    kind, r = E.call_x(c[0]["key"], x, [s, Opaque("std::string_view"), h, E.sym("bool", "autoName")])
    ok = And(*[le(add(s.get(n), h.get(n)), y) for n, y in zip(("mSize_", "rSize_", "tSize_"), spc(E, x))])
    E.prove("refused exactly when it does not fit in the variable", eq(kind == "ret", ok))
    if kind != "ret":
        E.prove("nothing is created on refusal", len(got) == 0)
        return
    if len(got) != 1:
        E.prove("one sub-variable is created", False)
        return
    g = got[0]
    ld = lambda q: E.read(q) if isinstance(q, LV) else q
    pv, sp, sh = ld(g[1]), ld(g[2]), ld(g[4])
    E.prove("it is a sub-variable of the base primitive of the super-variable", eq(pv.a, b.a))
    E.prove("its space is the one given", And(*[eq(sp.get(n), s.get(n)) for n in ("mSize_", "rSize_", "tSize_")]))
    E.prove("its shift is accumulated", And(*[eq(sh.get(n), add(y, h.get(n))) for n, y in zip(
        ("mSize_", "rSize_", "tSize_"), spc(E, x, "shift_"))]))
    if dots:
        E.prove("derived to the order of the variable", And(len(dots) == 1, le(NEWB(), dots[0][0].a), eq(dots[0][1], dn(E, x)),
                                                             lt(0, dn(E, x))))
    else:
        E.prove("derived to the order of the variable", And(eq(dn(E, x), 0), le(NEWB(), r.a)))


CH = z3.Function("chain", z3.IntSort(), z3.IntSort())       # ghost: k-th derivative of var in the pre-state


@unit("dot(VariablePtr, n)", ["tvm::dot"])
def dotu(E):
    stubs(E)
    x = var(E, "x")
    n = E.input("n", E.sym("int", "n"))
    E.assume(lt(0, n))
    q = E.obj(V, "q")
    know(E, q)
    oq = (f(E, q, "derivative_").a, dn(E, q), f(E, q, "primitive_").a)
    der0 = loops.frozen(E, lambda a: f(E, at(a), "derivative_").a)
    d0 = dn(E, x)
    E.assume(eq(CH(z3.IntVal(0)), x.a))
    made = []

    def new_(E, this, args, fn):
        p = args[0] if isinstance(args[0], Ptr) else E.read(args[0])
        me = this
        a = me.root[1]
        E.prove("a new derivative replaces none", eq(f(E, p, "derivative_").a, 0))
        w = at(a)
        E.setfld(w, "derivativeNumber_", simp(add(dn(E, p), 1)))
        E.setfld(w, "primitive_", p)
        E.setfld(w, "derivative_", Ptr(0, V))
        E.fact(eq(BASE(I(a)), BASE(I(p.a))))
        from interp import BUILT
        return BUILT
    E.stubs[V + "::Variable"] = new_

    def walk(E, k, L):
        p = at(L[0].a)
        E.fact(Or(eq(p.a, 0), fam(E, p)))
        return And(ne(p.a, 0), eq(p.a, CH(I(k))), eq(dn(E, p), add(d0, k)), eq(BASE(I(p.a)), BASE(I(x.a))))

    def link(E, k, L):
        # definition of the ghost chain, and FAM of its next element
        E.fact(eq(CH(I(simp(add(k, 1)))), der0(CH(I(k)))))
        p = at(der0(CH(I(k))))
        E.fact(Or(eq(p.a, 0), fam(E, p)))
        E.fact(Or(eq(p.a, 0), eq(BASE(I(p.a)), BASE(CH(I(k))))))
        return True
    st = {}

    def grow(E, k, L):
        p = at(L[0].a)
        if "i" not in st or "p" not in st:
            return False
        return And(ne(p.a, 0), eq(dn(E, p), add(add(d0, st["i"]), k)), eq(BASE(I(p.a)), BASE(I(x.a))),
                   eq(f(E, p, "derivative_").a, 0), Implies(eq(k, 0), eq(p.a, st["p"])),
                   Implies(lt(0, k), And(le(NEWB(), p.a), le(NEWB(), f(E, at(st["p"]), "derivative_").a))))

    def frame(E, k, L):
        return And(Implies(ne(q.a, st.get("p", 0)), eq(f(E, q, "derivative_").a, oq[0])), eq(dn(E, q), oq[1]),
                   eq(f(E, q, "primitive_").a, oq[2]))

    def entry(E, k, L):
        # state at the entry of the second loop: the last derivative of the chain
        if not isz(k) and k == 0 and L:
            st["p"] = L[0].a
            st["i"] = sub(dn(E, at(L[0].a)), d0)
        return True
    E.loopinv[("tvm::dot", 0)] = loops.Ind(("k-th derivative", walk), ("chain", link))
    E.loopinv[("tvm::dot", 1)] = loops.Ind(("entry", entry), ("derivatives created", grow), ("others untouched", frame))
    c = [g for g in E.prog.byname["tvm::dot"] if len(g["params"]) == 3 and g.get("body")]
    r = E.call(c[0]["key"], None, [x, n, E.sym("bool", "autoName")])
    E.prove("order of the derivative", eq(dn(E, r), add(d0, n)))
    E.prove("same base primitive", eq(BASE(I(r.a)), BASE(I(x.a))))
    if "p" not in st:
        E.prove("an existing derivative is returned", And(eq(r.a, CH(I(n))), lt(r.a, NEWB())))
    E.prove("nothing else changes", And(Implies(ne(q.a, st.get("p", 0)), eq(f(E, q, "derivative_").a, oq[0])), eq(dn(E, q), oq[1]),
                                        eq(f(E, q, "primitive_").a, oq[2])))
