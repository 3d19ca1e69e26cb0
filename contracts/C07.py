"""C07: MatrixProperties. Ghost semantics: a square, non-empty, real matrix A(t) is represented by the truth of its
characteristics at all times; the linear algebra relating the characteristics of A, B and of -A, dA, A+B, A-B, AB is
the trusted axiomatisation AX / NEG / SCALE / SUM / PROD below."""
from engine.run import unit
from values import *

TUS = ["tus/matprop.cpp"]
DRIVER = "C07.cpp"
SOURCES = ["internal/MatrixProperties.cpp"]
DRIVER_S = 6
BOUNDED = "every combination of annotations, against witness matrices of size 1 to 3; all pairs for the algebra"
TRUSTED = ["the linear-algebra facts AX, NEG, SCALE, SUM and PROD of contracts/C07.py (standard lemmas, stated not proved)"]
ASSUMPTIONS = ["annotated matrices are square and have at least one row"]
BUDGET = 90
P = "tvm::internal::MatrixProperties"
NS = "tvm::internal::"
CH = ("L", "U", "D", "M", "S", "PSD", "PD", "NSD", "ND", "INV", "CONST")


class Ghost:
    def __init__(self, E, name=None):
        self.E = E
        if name is not None:
            for c in CH:
                setattr(self, c, E.input("%s.%s" % (name, c), E.sym("bool", name + "." + c)))
            self.s = E.input(name + ".scale", E.sym("double", name + ".s"))
            E.assume(AX(self))


def AX(a):
    """facts about one square non-empty matrix"""
    return And(eq(a.D, And(a.L, a.U)), Implies(a.M, a.D), Implies(a.D, a.S),
               Implies(And(a.S, Or(a.L, a.U)), a.D),
               *[Implies(x, a.S) for x in (a.PSD, a.PD, a.NSD, a.ND)],
               eq(a.PD, And(a.PSD, a.INV)), eq(a.ND, And(a.NSD, a.INV)), Not(And(a.PD, a.NSD)), Not(And(a.ND, a.PSD)),
               Implies(And(a.PSD, a.NSD), And(a.M, eq(a.s, 0))),
               Implies(a.M, And(eq(a.PD, lt(0, a.s)), eq(a.ND, lt(a.s, 0)), eq(a.PSD, le(0, a.s)), eq(a.NSD, le(a.s, 0)),
                                eq(a.INV, ne(a.s, 0)))))


def SAME(a, b):
    return And(*[eq(getattr(a, c), getattr(b, c)) for c in CH], eq(a.s, b.s))


def NEG(a, r):
    return And(*[eq(getattr(a, c), getattr(r, c)) for c in ("L", "U", "D", "M", "S", "INV", "CONST")],
               Implies(a.M, eq(r.s, neg(a.s))), eq(r.PSD, a.NSD), eq(r.NSD, a.PSD), eq(r.PD, a.ND), eq(r.ND, a.PD))


def SCALE(d, a, r):
    nz = And(*[eq(getattr(a, c), getattr(r, c)) for c in ("L", "U", "D", "M", "S", "INV", "CONST")],
             Implies(a.M, eq(r.s, mul(d, a.s))))
    same = And(*[eq(getattr(a, c), getattr(r, c)) for c in ("PSD", "PD", "NSD", "ND")])
    swap = And(eq(r.PSD, a.NSD), eq(r.NSD, a.PSD), eq(r.PD, a.ND), eq(r.ND, a.PD))
    return And(Implies(eq(d, 0), And(r.M, eq(r.s, 0), r.CONST)), Implies(lt(0, d), And(nz, same)),
               Implies(lt(d, 0), And(nz, swap)))


def ZERO(a):
    return And(a.M, eq(a.s, 0), a.CONST)


def SUM(a, b, r):
    c2 = lambda c: Implies(And(getattr(a, c), getattr(b, c)), getattr(r, c))
    return And(*[c2(c) for c in ("L", "U", "D", "M", "S", "CONST", "PSD", "NSD")],
               Implies(And(a.M, b.M), eq(r.s, add(a.s, b.s))),
               Implies(Or(And(a.PD, b.PSD), And(a.PSD, b.PD)), r.PD), Implies(Or(And(a.ND, b.NSD), And(a.NSD, b.ND)), r.ND),
               Implies(ZERO(a), SAME(b, r)), Implies(ZERO(b), SAME(a, r)))


def PROD(a, b, r):
    c2 = lambda c: Implies(And(getattr(a, c), getattr(b, c)), getattr(r, c))
    return And(*[c2(c) for c in ("L", "U", "D", "M", "CONST")], Implies(And(a.M, b.M), eq(r.s, mul(a.s, b.s))),
               eq(r.INV, And(a.INV, b.INV)), Implies(Or(ZERO(a), ZERO(b)), ZERO(r)),
               Implies(And(a.M, a.CONST), SCALE(a.s, b, r)), Implies(And(b.M, b.CONST), SCALE(b.s, a, r)))


def en(E, t, n):
    return E.prog.enums[P + "::" + t][n]


def satS(E, s, a):
    """matrix a has shape s"""
    v = lambda n: eq(s, en(E, "Shape", n))
    return And(Implies(v("LOWER_TRIANGULAR"), a.L), Implies(v("UPPER_TRIANGULAR"), a.U), Implies(v("DIAGONAL"), a.D),
               Implies(v("MULTIPLE_OF_IDENTITY"), a.M), Implies(v("IDENTITY"), And(a.M, eq(a.s, 1), a.CONST)),
               Implies(v("MINUS_IDENTITY"), And(a.M, eq(a.s, -1), a.CONST)), Implies(v("ZERO"), ZERO(a)))


def satP(E, p, a):
    v = lambda n: eq(p, en(E, "Positiveness", n))
    return And(Implies(v("POSITIVE_SEMIDEFINITE"), a.PSD), Implies(v("POSITIVE_DEFINITE"), a.PD),
               Implies(v("NEGATIVE_SEMIDEFINITE"), a.NSD), Implies(v("NEGATIVE_DEFINITE"), a.ND), Implies(v("INDEFINITE"), a.S),
               Implies(v("NON_ZERO_INDEFINITE"), And(a.S, a.INV)))


OBS = ("isConstant", "isInvertible", "isTriangular", "isLowerTriangular", "isUpperTriangular", "isDiagonal",
       "isMultipleOfIdentity", "isIdentity", "isMinusIdentity", "isZero", "isSymmetric", "isPositiveSemiDefinite",
       "isPositiveDefinite", "isNegativeSemidefinite", "isNegativeDefinite", "isIndefinite", "isNonZeroIndefinite")


def claims(a):
    return {"isConstant": a.CONST, "isInvertible": a.INV, "isTriangular": Or(a.L, a.U), "isLowerTriangular": a.L,
            "isUpperTriangular": a.U, "isDiagonal": a.D, "isMultipleOfIdentity": a.M,
            "isIdentity": And(a.M, eq(a.s, 1)), "isMinusIdentity": And(a.M, eq(a.s, -1)), "isZero": And(a.M, eq(a.s, 0)),
            "isSymmetric": a.S, "isPositiveSemiDefinite": a.PSD, "isPositiveDefinite": a.PD,
            "isNegativeSemidefinite": a.NSD, "isNegativeDefinite": a.ND, "isIndefinite": a.S,
            "isNonZeroIndefinite": And(a.S, a.INV)}


def flag(E, p, n):
    """value of the Constness / Invertibility wrapper"""
    v = E.call(P + "::" + n, p)
    lv = v if isinstance(v, LV) else E.local(v, P + "::" + n.capitalize())
    f = [x for x in E.prog.byname[P + "::" + n.capitalize() + "::operator bool"]]
    return B(E.call(f[0], lv))


def holds(E, p, a):
    """every observer that answers true tells the truth about a"""
    c = claims(a)
    return [("%s is true" % n, Implies(E.call(P + "::" + n, p), c[n])) for n in OBS] + \
        [("shape() is true", satS(E, E.call(P + "::shape", p), a)),
         ("positiveness() is true", satP(E, E.call(P + "::positiveness", p), a)),
         ("constness() is true", Implies(flag(E, p, "constness"), a.CONST)),
         ("invertibility() is true", Implies(flag(E, p, "invertibility"), a.INV))]


def core(E, p, a):
    """the part of holds() the other observers are computed from"""
    return And(satS(E, E.call(P + "::shape", p), a), satP(E, E.call(P + "::positiveness", p), a),
               Implies(flag(E, p, "constness"), a.CONST), Implies(flag(E, p, "invertibility"), a.INV),
               Implies(E.call(P + "::isSymmetric", p), a.S), Implies(E.call(P + "::isConstant", p), a.CONST),
               Implies(E.call(P + "::isInvertible", p), a.INV))


def wrap(E, t, b):
    f = [c for c in E.prog.byname[P + "::" + t + "::" + t] if len(c["params"]) == 1 and c["params"][0]["t"] == "bool"]
    if len(f) != 1:
        raise Unsupported("constructor of " + t)
    v = E.construct(P + "::" + t, [b], fn=f[0]["key"], heap=False)
    return v


TYPES = {"s": "Shape", "p": "Positiveness", "c": "Constness", "i": "Invertibility"}


def args_of(E, order):
    vals, args = {}, []
    for k in order:
        if k in "sp":
            v = E.input(TYPES[k], E.sym(P + "::" + TYPES[k], k))
            a = E.local(v, P + "::" + TYPES[k])
        else:
            v = E.input(TYPES[k], E.sym("bool", k))
            a = wrap(E, TYPES[k], v)
            a = a if isinstance(a, LV) else E.local(a, P + "::" + TYPES[k])
        vals[k] = v
        args.append(a)
    return vals, args


def ctor_key(E, order):
    want = [P + "::" + TYPES[k] for k in order]
    c = [f for f in E.prog.byname[P + "::MatrixProperties"] if len(f["params"]) == len(order) and
         all(w in q["t"] for w, q in zip(want, f["params"]))]
    if not c:
        raise Unsupported("constructor with " + order)
    return c[0]["key"]


def contradictory(E, v):
    sh = lambda n: eq(v["s"], en(E, "Shape", n)) if "s" in v else False
    po = lambda *ns: Or(*[eq(v["p"], en(E, "Positiveness", n)) for n in ns]) if "p" in v else False
    PSD, PD, NSD, ND, NZ = "POSITIVE_SEMIDEFINITE", "POSITIVE_DEFINITE", "NEGATIVE_SEMIDEFINITE", "NEGATIVE_DEFINITE", "NON_ZERO_INDEFINITE"
    r = [And(sh("ZERO"), po(PD, ND, NZ)), And(sh("IDENTITY"), po(NSD, ND)), And(sh("MINUS_IDENTITY"), po(PSD, PD))]
    if "c" in v:
        r.append(And(Not(v["c"]), Or(sh("IDENTITY"), sh("MINUS_IDENTITY"), sh("ZERO"))))
    if "i" in v:
        r.append(And(Not(v["i"]), Or(sh("IDENTITY"), sh("MINUS_IDENTITY"), po(PD, ND, NZ))))
        r.append(And(v["i"], sh("ZERO")))
    return Or(*r)


def observed(E, p):
    return {"s": E.call(P + "::shape", p), "p": E.call(P + "::positiveness", p), "c": flag(E, p, "constness"),
            "i": flag(E, p, "invertibility")}


def make_ctor(order):
    @unit("MatrixProperties(%s)" % ",".join(TYPES[k] for k in order), [P + "::MatrixProperties", P + "::build"])
    def f(E):
        v, args = args_of(E, order)
        bad = contradictory(E, v)
        import sym
        try:
            p = E.construct(P, args, fn=ctor_key(E, order), heap=False)
        except sym.ThrowX:
            E.prove("only contradictory annotations are refused", bad)
            return
        p = p if isinstance(p, LV) else E.local(p, P)
        E.prove("contradictory annotations are refused", Not(bad))
        a = Ghost(E, "A")
        if "s" in v:
            E.assume(satS(E, v["s"], a))
        if "p" in v:
            E.assume(satP(E, v["p"], a))
        if "c" in v:
            E.assume(Implies(v["c"], a.CONST))
        if "i" in v:
            E.assume(Implies(v["i"], a.INV))
        hs = holds(E, p, a)
        for n, c in hs:
            E.prove("deduced " + n, c)
        E.prove("class invariant: the characteristics are not contradictory", Not(contradictory(E, observed(E, p))))
        # nothing given is lost
        b = Ghost(E, "B")
        E.assume(And(*[c for n, c in holds(E, p, b)]))
        if "s" in v:
            E.prove("the given shape is still claimed", satS(E, v["s"], b))
        if "p" in v:
            E.prove("the given positiveness is still claimed", satP(E, v["p"], b))
        if "c" in v:
            E.prove("the given constness is still claimed", Implies(v["c"], b.CONST))
        if "i" in v:
            E.prove("the given invertibility is still claimed", Implies(v["i"], b.INV))


for o in ("s", "p", "c", "i", "sp", "sc", "si", "pc", "pi", "ci", "ps", "spc", "spi", "sci", "pci", "icps", "spci"):
    make_ctor(o)


@unit("MatrixProperties()", [P + "::MatrixProperties"])
def default(E):
    p = E.construct(P, [], heap=False)
    p = p if isinstance(p, LV) else E.local(p, P)
    a = Ghost(E, "A")
    for n, c in holds(E, p, a):
        E.prove("no annotation: " + n, c)


# ------------------------------------------------------------------ algebra of the characteristics
def op(E, name, *ts):
    c = [f for f in E.prog.byname.get(NS + "operator" + name, []) if len(f["params"]) == len(ts) and
         all((t == "double") == (q["t"] == "double") and t in q["t"] for t, q in zip(ts, f["params"])) and
         ("MatrixProperties::" in ts[-1] or "MatrixProperties::" not in f["params"][-1]["t"])]
    if len(c) != 1:
        raise Unsupported("operator%s(%s)" % (name, ", ".join(ts)))
    return c[0]


OPS = {"-A": ("-", 1, NEG), "d*A": ("*", "d", SCALE), "A+B": ("+", 2, SUM), "A-B": ("-", 2, None), "A*B": ("*", 2, PROD)}


def ghosts(E, o):
    """operands, result and scale of operation o"""
    a, r = Ghost(E, "A"), Ghost(E, "R")
    if o == "-A":
        E.assume(NEG(a, r))
        return [a], r, None
    if o == "d*A":
        d = E.input("d", E.fresh("real", "d"))
        E.assume(SCALE(d, a, r))
        return [a], r, d
    b = Ghost(E, "B")
    if o == "A+B":
        E.assume(SUM(a, b, r))
    elif o == "A-B":
        n = Ghost(E, "-B")
        E.assume(And(NEG(b, n), SUM(a, n, r)))
    else:
        E.assume(PROD(a, b, r))
    return [a, b], r, None


def opf(E, o, t):
    n, k, _ = OPS[o]
    return op(E, n, *([t] if k == 1 else ["double", t] if k == "d" else [t, t]))


def char_unit(o, t, sat):
    T_ = P + "::" + t

    @unit("%s of %s" % (o, t), [NS + "operator" + OPS[o][0]])
    def f(E):
        f_ = opf(E, o, T_)
        gs, r, d = ghosts(E, o)
        vs = [E.input("%s%d" % (t, k), E.sym(T_, "v%d" % k)) for k in range(len(gs))]
        for v, g in zip(vs, gs):
            E.assume(sat(E, v, g))
        x = E.call(f_, None, ([d] if d is not None else []) + [E.local(v, T_) for v in vs])
        E.prove("the result characterises " + o, sat(E, E.read(x) if isinstance(x, LV) else x, r))


for o_ in OPS:
    char_unit(o_, "Shape", satS)
    char_unit(o_, "Positiveness", satP)


def sym_props(E, name, a):
    """arbitrary properties produced by a constructor (its class invariant and the truth of its claims) that a satisfies"""
    p = E.local(E.sym(P, name), P)
    E.assume(core(E, p, a))
    v = observed(E, p)
    for k in v:
        E.input(name + "." + TYPES[k], v[k])
    E.assume(Not(contradictory(E, v)))
    return p


@unit("observers of MatrixProperties", [P + "::" + n for n in OBS])
def observers(E):
    a = Ghost(E, "A")
    p = sym_props(E, "p", a)
    for n, c in holds(E, p, a):
        E.prove(n, c)


def op_unit(o):
    @unit("%s of MatrixProperties" % o, [NS + "operator" + OPS[o][0]])
    def f(E):
        gs, r, d = ghosts(E, o)
        ps = [sym_props(E, "p%d" % k, g) for k, g in enumerate(gs)]
        # the characteristic-wise operators and the constructor, by contract
        for t, sat in (("Shape", satS), ("Positiveness", satP)) if len(gs) > 1 else ():
            try:
                E.stubs[opf(E, o, P + "::" + t)["key"]] = by_contract(t, sat, r)
            except Unsupported:
                pass
        for f in E.prog.byname[P + "::MatrixProperties"]:
            ts = [[k for k in TYPES if P + "::" + TYPES[k] in q["t"]] for q in f["params"]]
            if ts and all(len(x) == 1 for x in ts):
                E.stubs[f["key"]] = ctor_contract([x[0] for x in ts], r)
        x = E.call(opf(E, o, P), None, ([d] if d is not None else []) + ps)
        x = x if isinstance(x, LV) else E.local(x, P)
        E.prove("%s has the resulting properties" % o, core(E, x, r))


def ctor_contract(order, r):
    """contract proved by the units MatrixProperties(...), instantiated with the matrix r"""
    def stub(E, this, args, fn):
        v = {}
        for k, a in zip(order, args):
            x = E.read(a) if isinstance(a, LV) else a
            if k in "ci":
                lv = a if isinstance(a, LV) else E.local(a, P + "::" + TYPES[k])
                x = B(E.call(E.prog.byname[P + "::" + TYPES[k] + "::operator bool"][0], lv))
            v[k] = x
        E.prove("the annotations of the result are not contradictory", Not(contradictory(E, v)))
        val = E.sym(P, "built%d" % E.fresh_id())
        q = E.local(val, P)
        sat = And(satS(E, v["s"], r) if "s" in v else True, satP(E, v["p"], r) if "p" in v else True,
                  Implies(v["c"], r.CONST) if "c" in v else True, Implies(v["i"], r.INV) if "i" in v else True)
        E.assume(Implies(sat, core(E, q, r)))
        if this is None:
            return val
        E.write(this, val)
        from interp import BUILT
        return BUILT
    return stub


def by_contract(t, sat, r):
    def stub(E, this, args, fn):
        x = E.sym(P + "::" + t, "%sr%d" % (t, E.fresh_id()))
        E.assume(sat(E, x, r))
        return x
    return stub


for o_ in OPS:
    op_unit(o_)
