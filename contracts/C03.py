"""C03: Space. Source: include/tvm/Space.h, src/Space.cpp (real bodies, extracted)."""
from engine.run import unit
from values import *

TUS = ["src/Space.cpp"]
DRIVER = "C03.cpp"
SOURCES = ["Space.cpp", "Variable.cpp", "VariableVector.cpp", "internal/ObjWithId.cpp", "internal/RangeCounting.cpp"]
DRIVER_S = 3
BOUNDED = "all constructors with dimensions up to 4, all pairs of the resulting spaces and their products"
S = "tvm::Space"


def dims(E, s):
    return E.call(S + "::size", s), E.call(S + "::rSize", s), E.call(S + "::tSize", s), E.call(S + "::type", s)


def TY(E, n):
    return E.prog.enums["tvm::Space::Type"][n]


def inv(E, s):
    """class invariant of Space, in terms of its observers"""
    m, r, t, ty = dims(E, s)
    return And(le(0, m), le(m, r), le(m, t),
               eq(eq(ty, TY(E, "Euclidean")), And(eq(m, r), eq(m, t))),
               Implies(eq(ty, TY(E, "SO3")), And(eq(m, 3), eq(r, 4), eq(t, 3))),
               Implies(eq(ty, TY(E, "SE3")), And(eq(m, 6), eq(r, 7), eq(t, 6))))


def space(E, n):
    """an arbitrary space satisfying the class invariant"""
    v = E.local(E.sym(S, n), S)
    E.assume(inv(E, v))
    for k, x in zip(("size", "rSize", "tSize", "type"), dims(E, v)):
        E.input(n + "." + k, x)
    return v


def built(E, *args, pre=True):
    cands = [f for f in E.prog.byname[S + "::Space"] if f.get("ctor") and len(f["params"]) == len(args) and
             not f.get("implicit") and "Type" not in f["params"][0]["t"]]
    E.assume(pre)
    k, v = None, None
    lv = E.local(Struct(S, {}, lambda n: UNINIT), S)
    from interp import uninit_value, call_function
    E.store[lv.root] = uninit_value(E, S)
    if len(cands) != 1:
        raise Unsupported("constructor of Space")
    call_function(E, cands[0], lv, list(args))
    return lv


@unit("Space::Space(int)", [S + "::Space"])
def c1(E):
    n = E.input("n", E.fresh("int", "n"))
    s = built(E, n, pre=le(0, n))
    m, r, t, ty = dims(E, s)
    E.prove("all dimensions are n", And(eq(m, n), eq(r, n), eq(t, n)))
    E.prove("Euclidean", B(E.call(S + "::isEuclidean", s)))
    E.prove("class invariant established", inv(E, s))


@unit("Space::Space(int,int)", [S + "::Space"])
def c2(E):
    n, q = E.input("n", E.fresh("int", "n")), E.input("r", E.fresh("int", "r"))
    s = built(E, n, q, pre=And(le(0, n), le(n, q)))
    m, r, t, ty = dims(E, s)
    E.prove("dimensions", And(eq(m, n), eq(r, q), eq(t, n)))
    E.prove("Euclidean iff all equal", eq(B(E.call(S + "::isEuclidean", s)), eq(n, q)))
    E.prove("class invariant established", inv(E, s))


@unit("Space::Space(int,int,int)", [S + "::Space"])
def c3(E):
    n, q, u = [E.input(x, E.fresh("int", x)) for x in ("n", "r", "t")]
    s = built(E, n, q, u, pre=And(le(0, n), le(n, q), le(n, u)))
    m, r, t, ty = dims(E, s)
    E.prove("dimensions", And(eq(m, n), eq(r, q), eq(t, u)))
    E.prove("Euclidean iff all equal", eq(B(E.call(S + "::isEuclidean", s)), And(eq(n, q), eq(n, u))))
    E.prove("class invariant established", inv(E, s))


@unit("Space::Space(Type,int)", [S + "::Space"])
def c4(E):
    ty0 = E.input("type", E.sym(S + "::Type", "ty"))
    n = E.input("size", E.fresh("int", "n"))
    cands = [f for f in E.prog.byname[S + "::Space"] if f.get("ctor") and len(f["params"]) == 2 and
             "Type" in f["params"][0]["t"]]
    if len(cands) != 1:
        raise Unsupported("constructor of Space")
    from interp import uninit_value
    lv = E.local(uninit_value(E, S), S)
    E.assume(Or(And(eq(ty0, TY(E, "Euclidean")), le(0, n)), And(ne(ty0, TY(E, "Euclidean")), lt(n, 0))))
    k, v = E.call_x(cands[0], lv, [ty0, n])
    if k == "throw":
        E.prove("only the unspecified type is refused", eq(ty0, TY(E, "Unspecified")))
        return
    E.prove("the unspecified type is refused", ne(ty0, TY(E, "Unspecified")))
    m, r, t, ty = dims(E, lv)
    E.prove("type as requested", eq(ty, ty0))
    E.prove("Euclidean dimensions", Implies(eq(ty0, TY(E, "Euclidean")), And(eq(m, n), eq(r, n), eq(t, n))))
    E.prove("rotations 3/4/3", Implies(eq(ty0, TY(E, "SO3")), And(eq(m, 3), eq(r, 4), eq(t, 3))))
    E.prove("rigid motions 6/7/6", Implies(eq(ty0, TY(E, "SE3")), And(eq(m, 6), eq(r, 7), eq(t, 6))))
    E.prove("class invariant established", inv(E, lv))


@unit("Space::isEuclidean", [S + "::isEuclidean"])
def eucl(E):
    s = space(E, "s")
    m, r, t, ty = dims(E, s)
    E.prove("Euclidean exactly when all dimensions are equal", eq(B(E.call(S + "::isEuclidean", s)), And(eq(m, r), eq(m, t))))


@unit("operator*(Space,Space)", ["tvm::operator*"])
def prod(E):
    a, b = space(E, "a"), space(E, "b")
    c = [f for f in E.prog.fn.values() if f["name"].endswith("operator*") and len(f["params"]) == 2 and
         all("tvm::Space" in p["t"] for p in f["params"])]
    if len(c) != 1:
        raise Unsupported("product of spaces")
    p = E.local(E.call(c[0], None, [a, b]), S)
    x, y, z = dims(E, a), dims(E, b), dims(E, p)
    for i, n in enumerate(("size", "rSize", "tSize")):
        E.prove("the product adds " + n, eq(z[i], add(x[i], y[i])))
    ea, eb, ep = [B(E.call(S + "::isEuclidean", q)) for q in (a, b, p)]
    E.prove("Euclidean exactly when both factors are", eq(ep, And(ea, eb)))
    E.prove("class invariant preserved", inv(E, p))


@unit("Space::operator==", [S + "::operator==", S + "::operator!="])
def eqs(E):
    a, b = space(E, "a"), space(E, "b")
    same = And(*[eq(x, y) for x, y in zip(dims(E, a), dims(E, b))])
    E.prove("== iff same dimensions and type", eq(B(E.call(S + "::operator==", a, [b])), same))
    E.prove("!= is the negation", eq(B(E.call(S + "::operator!=", a, [b])), Not(same)))


@unit("Space::operator<=", [S + "::operator<="])
def leq(E):
    a, b = space(E, "a"), space(E, "b")
    x, y = dims(E, a), dims(E, b)
    E.prove("<= iff every dimension is", eq(B(E.call(S + "::operator<=", a, [b])),
                                            And(*[le(x[i], y[i]) for i in range(3)])))
