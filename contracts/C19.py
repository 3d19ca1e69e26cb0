"""C19: a task is recognised as a bound only when it is one."""
from engine.run import unit
from values import *
TUS = ["src/scheme/helpers.cpp", "src/VariableVector.cpp", "src/internal/MatrixProperties.cpp"]
DRIVER = "C19.cpp"
SOURCES = None
DRIVER_S = 30
BOUNDED = "constraints of every type and convention on one or two variables, with every kind of annotated diagonal matrix, with and " \
          "without substitutions (chained, of parts of variables), for every target convention: the classification is compared with " \
          "the meaning of the rewritten bound at random points, and with the bounds the solvers are given"
ASSUMPTIONS = ["the coefficients are reals (rounding is not modelled)"]
TRUSTED = ["the annotations of the matrices are true (C07, C10, C14, C15)", "std::find, std::find_if: first element"]
NS = "tvm::scheme::internal::"
FOP = "tvm::internal::FirstOrderProvider"
C = "tvm::constraint::abstract::Constraint"
BLF = "tvm::function::BasicLinearFunction"
VV = "tvm::VariableVector"
V = "tvm::Variable"
P = "tvm::internal::MatrixProperties"
SUBS = "tvm::hint::internal::Substitutions"
EQ_, GT, LT_, DS = range(4)


class World:
    """an arbitrary constraint, and arbitrary substitutions x[k] = xsub[k](...)"""

    def __init__(s, E):
        s.E = E
        i = E.fresh_id()
        s.c = E.obj(C, "c")
        s.f = E.obj(BLF, "substitution")
        s.vc, s.vf = E.obj(VV, "vars"), E.obj(VV, "vars of the substitution")
        s.nc = E.input("variables", E.fld(s.vc, "variables_").n)
        s.nf = E.input("variables of the substitution", E.fld(s.vf, "variables_").n)
        for v in (s.vc, s.vf):
            w = E.fld(v, "variables_")
            E.forall(lambda k, w=w: Implies(And(le(0, k), lt(k, w.n)), ne(w.get(k).a, 0)))
        T = [f for f in E.prog.byname[NS + "isBound"] if len(f["params"]) == 3][0]["params"]
        strip = lambda t: t.replace("const ", "").replace("&", "").strip()
        s.tx, s.ts = strip(T[1]["t"]), strip(T[2]["t"])
        s.x = E.sym(s.tx, "x")
        s.xs = E.sym(s.ts, "xsub")
        E.assume(eq(s.x.n, s.xs.n))
        for w in (s.x, s.xs):
            E.forall(lambda k, w=w: Implies(And(le(0, k), lt(k, w.n)), ne(w.get(k).a, 0)))
        s.meet_ = z3.Function("meet!%d" % i, z3.IntSort(), z3.IntSort(), z3.BoolSort())
        E.stubs[V + "::intersects"] = lambda E, this, a, fn: s.meet_(s.addr(this), s.addr(a[0]))
        s.linear = E.input("linear", E.sym("bool", "linear"))
        s.p, s.pf = (E.local(E.sym(P, n), P) for n in ("p", "ps"))
        s.obs = {}
        for n, l in (("c", s.p), ("f", s.pf)):
            for q in ("isDiagonal", "isInvertible", "isPositiveDefinite", "isNegativeDefinite"):
                s.obs[n, q] = E.input(n + "." + q, B(E.call(P + "::" + q, l)))
        # which substitution, if any, is that of the variable
        s.cx = lambda: I(E.fld(s.vc, "variables_").get(0).a)
        s.k = E.input("index of the substitution", E.skolem("k"))
        s.subst = E.input("substituted", E.sym("bool", "substituted"))
        E.assume(Implies(s.subst, And(le(0, s.k), lt(s.k, s.x.n), eq(s.x.get(s.k).a, s.cx()), eq(s.xs.get(s.k).a, s.f.a))))
        E.forall(lambda j: Implies(And(le(0, j), lt(j, s.x.n), Or(Not(s.subst), lt(j, s.k))), ne(s.x.get(j).a, s.cx())))
        s.cut = E.input("a part of the variable is substituted", E.sym("bool", "cut"))
        w = E.skolem("w")
        E.assume(Implies(s.cut, And(le(0, w), lt(w, s.x.n), s.meet_(s.cx(), I(s.x.get(w).a)))))
        E.forall(lambda j: Implies(And(le(0, j), lt(j, s.x.n), Not(s.cut)), Not(s.meet_(s.cx(), I(s.x.get(j).a)))))

        def which(E, this):
            a = s.addr(this)
            if E.must(a == I(s.c.a)):
                return "c"
            E.prove("the substitution asked is that of the variable", And(s.subst, eq(a, s.f.a)))
            return "f"

        def variables(E, this, a, fn):
            return E.deref(s.vc if which(E, this) == "c" else s.vf)

        def jacobian(E, this, a, fn):
            n = which(E, this)
            w = E.fld(s.vc if n == "c" else s.vf, "variables_")
            E.prove("the matrix of the variable is asked for", And(lt(0, w.n), eq(s.addr(a[0]), w.get(0).a)))
            cls = fn["rt"].replace("const ", "").replace("&", "").strip()
            st = Struct(cls, {"#eigen": E.local(Mat(1, 1, lambda i, j: 0)), "properties_": RefVal(s.p if n == "c" else s.pf)})
            return E.local(st, cls)

        def linearIn(E, this, a, fn):
            E.prove("the linearity in the variable of the constraint is asked for", And(which(E, this) == "c", eq(s.addr(a[0]), s.cx())))
            return s.linear
        E.stubs[FOP + "::variables"] = variables
        E.stubs[FOP + "::jacobian"] = jacobian
        E.stubs[FOP + "::linearIn"] = linearIn
        E.stubs[SUBS + "::variables"] = lambda E, this, a, fn: E.local(s.x, s.tx)
        E.stubs[SUBS + "::variableSubstitutions"] = lambda E, this, a, fn: E.local(s.xs, s.ts)
        s.type = E.input("type", E.sym("tvm::constraint::Type", "type"))
        E.stubs[C + "::type"] = lambda E, this, a, fn: s.type

    def addr(s, v):
        return I(simp(s.E.mkptr(v).a if isinstance(v, LV) else v.a))

    def plain(s):
        """the constraint, alone, is a bound"""
        return And(eq(s.nc, 1), s.linear, s.obs["c", "isDiagonal"], s.obs["c", "isInvertible"])

    def bound(s):
        sub = And(eq(s.nf, 1), s.obs["f", "isDiagonal"], s.obs["f", "isInvertible"])
        return And(s.plain(), Or(And(s.subst, sub), And(Not(s.subst), Not(s.cut))))

    def args(s, n):
        E = s.E
        c = E.local(s.c)
        if n == 1:
            return [c]
        if n == "subs":
            return [c, E.obj(SUBS, "subs")]
        return [c, E.local(s.x, s.tx), E.local(s.xs, s.ts)]


def pickf(E, name, n, first):
    f = [f for f in E.prog.byname[NS + name] if len(f["params"]) == n and (first is None or ("Substitutions" in f["params"][1]["t"]) == first)]
    if len(f) != 1:
        raise Unsupported("%d functions %s" % (len(f), name))
    return f[0]


@unit("isBound", [NS + "isBound(c)", NS + "isBound(c, x, xsub)", NS + "isBound(c, subs)"])
def isbound(E):
    w = World(E)
    form = E.choose("alone") and 1 or (E.choose("with substitutions") and "subs" or 3)
    f = pickf(E, "isBound", 1 if form == 1 else 2 if form == "subs" else 3, None)
    r = B(E.call(f["key"], None, w.args(form)))
    if form == 1:
        E.prove("a bound: linear in a single variable through an invertible diagonal matrix", eq(r, w.plain()))
    else:
        E.prove("a bound: so is the constraint, and its variable is not substituted, even in part, or it is by a linear "
                "function of a single variable through an invertible diagonal matrix", eq(r, w.bound()))


@unit("canBeUsedAsBound", [NS + "canBeUsedAsBound(c, x, xsub, t)", NS + "canBeUsedAsBound(c, subs, t)"], limit=3000)
def usable(E):
    w = World(E)
    subs = E.choose("Substitutions")
    t = 0 if E.choose("=") else 1 if E.choose(">=") else 2 if E.choose("<=") else 3
    f = pickf(E, "canBeUsedAsBound", 3 if subs else 4, None)
    # isBound, by its contract
    fs = {pickf(E, "isBound", 3, None)["key"]: 1, pickf(E, "isBound", 2, None)["key"]: 2}
    for k in fs:
        E.stubs[k] = lambda E, this, a, fn: w.bound()
    for f1 in E.prog.byname[NS + "isBound"]:
        if len(f1["params"]) == 1:
            E.stubs[f1["key"]] = lambda E, this, a, fn: w.plain()
    o = w.obs
    # ghost: the diagonal elements of one row. The annotations are true, and those of definite and invertible matrices are coherent
    d, ds = E.input("J(i,i)", E.sym("double", "d")), E.input("N(i,i)", E.sym("double", "ds"))
    for n, v in (("c", d), ("f", ds)):
        E.assume(Implies(o[n, "isPositiveDefinite"], lt(0, v)))
        E.assume(Implies(o[n, "isNegativeDefinite"], lt(v, 0)))
        E.assume(Implies(And(o[n, "isDiagonal"], o[n, "isInvertible"]), ne(v, 0)))
    E.assume(And(le(0, w.type), le(w.type, 3)))
    r = B(E.call(f["key"], None, w.args("subs" if subs else 3) + [t]))
    g = ite(w.subst, mul(d, ds), d)           # the coefficient of the remaining variable, in this row
    z, b = E.sym("double", "z"), E.sym("double", "b")   # slack form: g z >= b (resp. <=) against z >= b/g
    q = E.sym("double", "quotient")
    E.assume(Implies(ne(g, 0), eq(mul(q, g), b)))
    ge_c, le_c = le(b, mul(g, z)), le(mul(g, z), b)
    E.prove("only bounds are used as such", Implies(r, w.bound()))
    E.prove("no bound is rewritten as an equality", Implies(eq(t, EQ_), Not(r)))
    E.prove("equalities and two-sided bounds need a two-sided convention", Implies(And(r, Or(eq(w.type, EQ_), eq(w.type, DS))), eq(t, DS)))
    if t in (GT, LT_):
        want = le(q, z) if t == GT else le(z, q)
        E.prove("the rewritten bound means the same: direction of the inequality", Implies(r, eq(ite(eq(w.type, GT), ge_c, le_c), want)))
        pos = lambda n: o[n, "isPositiveDefinite"]
        ng = lambda n: o[n, "isNegativeDefinite"]
        same = ite(w.subst, Or(And(pos("c"), pos("f")), And(ng("c"), ng("f"))), pos("c"))
        opp = ite(w.subst, Or(And(pos("c"), ng("f")), And(ng("c"), pos("f"))), ng("c"))
        E.prove("every bound whose rewriting is known to keep its meaning is accepted",
                Implies(And(w.bound(), Or(And(eq(w.type, t), same), And(eq(w.type, GT + LT_ - t), opp))), r))
    if t == DS:
        E.prove("every bound can be given to a two-sided convention", Implies(w.bound(), r))
