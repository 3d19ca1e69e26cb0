"""C14: linear functions and constraints."""
from engine.run import unit
import loops
from sym import AbortX, ThrowX
from values import *
TUS = ["src/function/LinearFunction.cpp", "src/function/BasicLinearFunction.cpp", "src/function/IdentityFunction.cpp",
       "src/constraint/LinearConstraint.cpp", "src/constraint/BasicLinearConstraint.cpp", "src/constraint/Constraint.cpp",
       "src/constraint/RHSVectors.cpp", "src/internal/MatrixProperties.cpp"]
DRIVER = "C14.cpp"
SOURCES = None
DRIVER_S = 10
BOUNDED = "random functions and constraints of 1 to 4 variables (sub-variables, derivatives, several matrices for one variable), " \
          "every type, convention and constructor, matrices and vectors replaced between evaluations through the graph, against the " \
          "sum computed separately; refusals of wrong sizes, unknown variables and forbidden vectors without effect"
ASSUMPTIONS = ["the coefficients are reals (rounding is not modelled)",
               "the lists given to the constructors are not empty",
               "expressions (A*x + b, see C21) are covered by the bounded check only"]
TRUSTED = ["Eigen: assignment, sum and product of matrices", "std::map: one matrix per variable (declared by addVariable)",
           "declarations of dependencies between updates and outputs take effect (C09)"]
FOP = "tvm::internal::FirstOrderProvider"
LF = "tvm::function::abstract::LinearFunction"
BLF = "tvm::function::BasicLinearFunction"
LC = "tvm::constraint::abstract::LinearConstraint"
BLC = "tvm::constraint::BasicLinearConstraint"
VV = "tvm::VariableVector"
V = "tvm::Variable"


class Lin:
    """an arbitrary linear function or constraint: n variables of any sizes, one matrix per variable"""

    def __init__(s, E, cls, deriv=False):
        s.E = E
        s.o = E.obj(cls, "o")
        s.m = E.input("rows", E.fresh("int", "rows"))
        E.assume(le(0, s.m))
        vv = E.obj(VV, "vv")
        s.vars = E.fld(vv, "variables_")
        s.n = E.input("variables", s.vars.n)
        E.forall(lambda k: Implies(And(le(0, k), lt(k, s.n)), ne(s.vars.get(k).a, 0)))
        i = E.fresh_id()
        Z = z3.IntSort()
        s.size_ = z3.Function("size!%d" % i, Z, Z)
        s.J_ = z3.Function("J!%d" % i, Z, Z, Z, z3.RealSort())
        s.x_ = z3.Function("x!%d" % i, Z, Z, z3.RealSort())
        s.dot_ = z3.Function("dot!%d" % i, Z, Z)
        E.stubs[FOP + "::variables"] = lambda E, this, a, fn: E.deref(vv)
        E.stubs[FOP + "::size"] = E.stubs[FOP + "::tSize"] = E.stubs[FOP + "::rSize"] = lambda E, this, a, fn: s.m
        E.stubs[FOP + "::jacobian"] = lambda E, this, a, fn: s.jac(E, s.addr(a[0]))
        E.stubs[V + "::value"] = lambda E, this, a, fn: s.vec(E, s.addr(this))
        E.stubs["tvm::dot"] = s.dot

    def addr(s, v):
        return I(simp(s.E.mkptr(v).a if isinstance(v, LV) else v.a))

    def var(s, k):
        return I(s.vars.get(k).a)

    def jac(s, E, a):
        return E.local(Mat(s.m, s.size_(a), lambda i, j: s.J_(a, I(i), I(j))))

    def vec(s, E, a):
        return E.local(Mat(s.size_(a), 1, lambda i, j: s.x_(a, I(i))))

    def dot(s, E, this, a, fn):
        v = E.read(a[0]) if isinstance(a[0], LV) else a[0]
        d = s.dot_(I(v.a))
        E.fact(s.size_(d) == s.size_(I(v.a)))
        E.fact(d != 0)
        return Ptr(d, v.cls)

    def sum(s, E, i, of=lambda s, a: a):
        """ghost: partial sums over the variables of row i of the matrix times the value"""
        S = z3.Function("S!%d" % E.fresh_id(), z3.IntSort(), z3.RealSort())
        E.fact(S(0) == 0)
        s.S = S
        s.of = of

        def row(k):
            a = s.var(k)
            d = of(s, a)
            return E.msum(s.size_(d), lambda l: mul(s.J_(a, I(i), I(l)), s.x_(d, I(l))))
        E.forall(lambda k: Implies(le(0, k), eq(S(simp(add(k, 1))), add(S(I(k)), row(k)))))
        return S


def total(E, c, fn, cls, dest, base, of=lambda s, a: a):
    i = E.skolem("row")
    E.assume(And(le(0, i), lt(i, c.m)))
    S = c.sum(E, i, of)
    b = base(i)

    def val(E):
        return E.asmat(E.fld(c.o, dest))
    E.loopinv[fn] = loops.Ind(
        ("size", lambda E, k, L: And(eq(val(E).r, c.m), eq(val(E).c, 1))),
        ("partial sum", lambda E, k, L: eq(val(E).get(i, 0), add(b, S(I(k))))))
    E.write(E.fld_lv(c.o, dest), Mat(c.m, 1, E.asmat(E.fld(c.o, dest)).get))
    E.call(fn, c.o)
    v = val(E)
    E.prove("the result has one row per row of the function", And(eq(v.r, c.m), eq(v.c, 1)))
    E.prove("each row is the sum, over all the variables, of the matrix times the vector", eq(v.get(i, 0), add(b, S(c.n))))


@unit("LinearFunction::updateValue_", [LF + "::updateValue_"])
def lfvalue(E):
    c = Lin(E, LF)
    b = E.asmat(E.read(E.fld_lv(c.o, "b_")))
    E.assume(And(eq(b.r, c.m), eq(b.c, 1)))
    total(E, c, LF + "::updateValue_", LF, "value_", lambda i: b.get(i, 0))


@unit("LinearFunction::updateVelocity_", [LF + "::updateVelocity_"])
def lfvel(E):
    c = Lin(E, LF)
    total(E, c, LF + "::updateVelocity_", LF, "velocity_", lambda i: Fraction(0), lambda s, a: s.dot_(a))


@unit("LinearConstraint::updateValue", [LC + "::updateValue"])
def lcvalue(E):
    c = Lin(E, BLC)
    total(E, c, LC + "::updateValue", LC, "value_", lambda i: Fraction(0))


# ------------------------------------------------------------------ bound vectors
TYPES = ["EQUAL", "GREATER_THAN", "LOWER_THAN", "DOUBLE_SIDED"]


def enum(E, n):
    for k, v in E.prog.enums.items():
        if k.endswith("::" + n):
            return v
    raise Unsupported("enumeration " + n)


def typ(E):
    t = E.prog.enums["tvm::constraint::Type"]
    return t[TYPES[0 if E.choose("equal") else 1 if E.choose("greater") else 2 if E.choose("lower") else 3]]


def rhs(E):
    r = E.prog.enums["tvm::constraint::RHS"]
    return r["ZERO" if E.choose("zero") else "AS_GIVEN" if E.choose("as given") else "OPPOSITE"]


def used(E, t, r):
    T, R = E.prog.enums["tvm::constraint::Type"], E.prog.enums["tvm::constraint::RHS"]
    if r == R["ZERO"]:
        return ""
    return {T["EQUAL"]: "e", T["GREATER_THAN"]: "l", T["LOWER_THAN"]: "u", T["DOUBLE_SIDED"]: "lu"}[t]


RV = "tvm::constraint::internal::RHSVectors"


@unit("RHSVectors", [RV + "::RHSVectors", RV + "::resize", RV + "::use_l", RV + "::use_u", RV + "::use_e"])
def rhsv(E):
    t, r = typ(E), rhs(E)
    o = E.construct(RV, [t, r])
    n = E.input("n", E.fresh("int", "n"))
    E.assume(le(0, n))
    E.call(RV + "::resize", o, [n])
    for k in "lue":
        E.prove("the vectors used are those of the type and convention: " + k,
                eq(B(E.call(RV + "::use_" + k, o)), k in used(E, t, r)))
        v = E.asmat(E.fld(o, k + "_"))
        E.prove("a vector in use has the size asked for, the others none: " + k, eq(v.r, n if k in used(E, t, r) else 0))


CS = "tvm::constraint::abstract::Constraint"


@unit("Constraint::Constraint", [CS + "::Constraint", CS + "::resizeCache", RV + "::resize", RV + "::RHSVectors"])
def cstr(E):
    t, r = typ(E), rhs(E)
    n = E.input("n", E.fresh("int", "n"))
    E.assume(le(0, n))
    base = [f for f in E.prog.byname if f.startswith("tvm::graph::abstract::OutputSelector<") and "Constraint" in f
            and f.endswith("::OutputSelector")]
    if len(base) != 1:
        raise Unsupported("base class constructor")
    E.stubs[base[0]] = lambda E, this, a, fn: E.prove("the provider has the size asked for", eq(E.read(a[0]) if isinstance(a[0], LV) else a[0], n))
    E.stubs[FOP + "::size"] = lambda E, this, a, fn: n
    E.stubs[FOP + "::resizeCache"] = lambda E, this, a, fn: None
    off = []
    for f in E.prog.byname:
        if f.endswith("::disableOutput"):
            E.stubs[f] = lambda E, this, a, fn: off.append(E.read(a[0]) if isinstance(a[0], LV) else a[0])
    bad = t == E.prog.enums["tvm::constraint::Type"]["DOUBLE_SIDED"] and r == E.prog.enums["tvm::constraint::RHS"]["ZERO"]
    try:
        o = E.construct(CS, [t, r, n])
    except ThrowX:
        E.prove("only a double-sided constraint with a zero right-hand side is refused", bad)
        return
    E.prove("a double-sided constraint with a zero right-hand side is refused", not bad)
    out = E.prog.enums[CS + "::Output_"]
    E.prove("the outputs disabled are those of the vectors that are not in use",
            sorted(off) == sorted(out[k.upper()] for k in "lue" if k not in used(E, t, r)))
    for k in "lue":
        v = E.asmat(E.fld(E.fld_lv(o, "vectors_"), k + "_"))
        E.prove("a vector in use has the size of the constraint: " + k, eq(v.r, n if k in used(E, t, r) else 0))


# ------------------------------------------------------------------ data given later
def vec(E, name, n):
    f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.RealSort())
    return E.local(Mat(n, 1, lambda i, j: f(I(i))))


def mat(E, name, n, m):
    f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.IntSort(), z3.RealSort())
    return E.local(Mat(n, m, lambda i, j: f(I(i), I(j))))


def nat(E, name):
    n = E.input(name, E.fresh("int", name))
    E.assume(le(0, n))
    return n


class Con:
    """an arbitrary basic linear constraint"""

    def __init__(s, E):
        s.t, s.r = typ(E), rhs(E)
        s.T, s.R = E.prog.enums["tvm::constraint::Type"], E.prog.enums["tvm::constraint::RHS"]
        E.assume(not (s.t == s.T["DOUBLE_SIDED"] and s.r == s.R["ZERO"]))
        s.o = E.obj(BLC, "o")
        s.m = nat(E, "rows")
        E.setfld(s.o, "cstrType_", s.t)
        E.setfld(s.o, "constraintRhs_", s.r)
        E.stubs[FOP + "::size"] = lambda E, this, a, fn: s.m
        s.v = E.fld_lv(s.o, "vectors_")
        s.used = used(E, s.t, s.r)
        for k in "lue":
            E.write(E.fld_lv(s.v, k + "_"), E.read(vec(E, k, s.m if k in s.used else 0)))

    def get(s, E):
        return {k: E.asmat(E.fld(s.v, k + "_")) for k in "lue"}


def setter(k):
    def f(E):
        c = Con(E)
        n = nat(E, "size given")
        x = vec(E, "given", n)
        old = c.get(E)
        target = (c.used if k == "b" else k if k in c.used and c.used == "lu" else "") if not (k == "b" and c.used == "lu") else ""
        if k == "b" and c.used == "lu":
            target = ""
        ok = len(target) == 1
        i = E.skolem("component")
        fk = [g for g in E.prog.byname[BLC + "::" + k] if len(g["params"]) == 1][0]["key"]
        try:
            E.call(fk, c.o, [E.local(View(x, 0, 0, n, 1))])
            bad = False
        except ThrowX:
            bad = True
        new = c.get(E)
        E.prove("the vector is refused exactly when it has a wrong size or no place in this constraint",
                eq(bad, Or(not ok, ne(n, c.m))))
        for q in "lue":
            E.assume(And(le(0, i)))
            if q == target and not bad:
                E.prove("the vector given is the bound exposed", And(eq(new[q].r, n), Implies(lt(i, n), eq(
                    new[q].get(i, 0), E.asmat(E.read(x)).get(i, 0)))))
            else:
                E.prove("the other bounds are untouched", And(eq(new[q].r, old[q].r), Implies(lt(i, old[q].r), eq(
                    new[q].get(i, 0), old[q].get(i, 0)))))
    f.__name__ = "set_" + k
    unit("BasicLinearConstraint::" + k, [BLC + "::" + k])(f)


for K in "blu":
    setter(K)


class Jac:
    """contract of the map of matrices: one matrix of the right size per known variable, out_of_range for the others"""

    def __init__(s, E, o, m, x, props=True):
        s.E, s.m, s.x = E, m, x
        s.known = E.choose("known variable")
        s.n = nat(E, "variable size")
        s.cls = "tvm::internal::ObjectWithProperties<Eigen::Matrix<double, -1, -1, 0, -1, -1>, false>"
        s.lv = E.local(E.sym(s.cls, "stored"), s.cls)
        j = z3.Function("J!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        s.old = Mat(m, s.n, lambda i, k: j(I(i), I(k)))
        E.write(s.lv.step("f", "#eigen", s.cls), s.old)
        s.prop0 = E.fld(s.lv, "properties_")
        E.stubs["map at"] = s.at
        E.stubs[V + "::size"] = lambda E, this, a, fn: s.n

    def at(s, E, this, a, fn):
        p = E.read(a[0]) if isinstance(a[0], LV) else a[0]
        E.prove("the matrix of the variable given is asked for", eq(p.a, s.x.a))
        if not s.known:
            raise ThrowX("std::out_of_range")
        return s.lv

    def now(s, E):
        return E.asmat(E.read(s.lv))


def set_matrix(cls, wrapper):
    def f(E):
        o = E.obj(cls, "o")
        m = nat(E, "rows")
        x = E.obj(V, "x")
        E.stubs[FOP + "::size"] = lambda E, this, a, fn: m
        J = Jac(E, o, m, x)
        r, c = nat(E, "rows given"), nat(E, "columns given")
        a = mat(E, "given", r, c)
        p = E.local(E.sym("tvm::internal::MatrixProperties", "p"), "tvm::internal::MatrixProperties")
        cand = [g for g in E.prog.byname[cls + "::A"] if len(g["params"]) == (2 if wrapper else 3)]
        single = True
        args = [E.local(View(a, 0, 0, r, c)), E.deref(x), p]
        if wrapper:
            vv = E.obj(VV, "vv")
            E.stubs[FOP + "::variables"] = lambda E, this, a, fn: E.deref(vv)
            n = nat(E, "number of variables")
            E.assume(And(Implies(eq(n, 1), J.known)))
            E.stubs[VV + "::numberOfVariables"] = lambda E, this, a, fn: n

            def elem(E, this, a, fn):
                i = E.read(a[0]) if isinstance(a[0], LV) else a[0]
                E.prove("the only variable is taken", And(eq(i, 0), eq(n, 1)))
                return E.local(x)
            E.stubs[VV + "::operator[]"] = elem
            single = eq(n, 1)
            args = [args[0], p]
        try:
            E.call(cand[0]["key"], o, args)
            bad = False
        except ThrowX:
            bad = True
        i, j = E.skolem("row"), E.skolem("col")
        E.assume(And(le(0, i), lt(i, m), le(0, j), lt(j, J.n)))
        E.prove("a matrix is refused exactly when its size is wrong or the variable is not one of the function",
                eq(bad, Not(And(eq(r, m), eq(c, J.n), J.known, single))))
        E.prove("the matrix of the variable is the one given, or untouched after a refusal",
                eq(J.now(E).get(i, j), J.old.get(i, j) if bad else E.asmat(E.read(a)).get(i, j)))
        E.prove("its size is kept", And(eq(J.now(E).r, m), eq(J.now(E).c, J.n)))
        E.prove("the annotation is the one given, or untouched after a refusal",
                same(E, E.fld(J.lv, "properties_"), J.prop0 if bad else p))
    unit(cls.split("::")[-1] + "::A" + (" (single variable)" if wrapper else ""), [cls + "::A"])(f)


def same(E, a, b):
    a, b = (E.read(v) if isinstance(v, LV) else v for v in (a, b))
    return And(*[eq(a.get(fr["name"]), b.get(fr["name"])) for _, fr in E.prog.fields(b.cls)])


for CLS in (BLC, BLF):
    for W in (False, True):
        set_matrix(CLS, W)


def blf_b(E):
    o = E.obj(BLF, "o")
    m, n = nat(E, "rows"), nat(E, "size given")
    E.stubs[FOP + "::size"] = lambda E, this, a, fn: m
    bl = E.fld_lv(o, "b_")
    old = vec(E, "previous", m)
    E.assign_mat(bl, E.read(old))
    x = vec(E, "given", n)
    E.assume(eq(E.asmat(E.read(bl)).r, m))
    p = E.local(E.sym("tvm::internal::MatrixProperties", "p"), "tvm::internal::MatrixProperties")
    p0 = E.fld(bl, "properties_")
    fk = [g for g in E.prog.byname[BLF + "::b"] if len(g["params"]) == 2][0]["key"]
    try:
        E.call(fk, o, [E.local(View(x, 0, 0, n, 1)), p])
        bad = False
    except ThrowX:
        bad = True
    i = E.skolem("component")
    E.assume(And(le(0, i), lt(i, m)))
    E.prove("a constant is refused exactly when it has a wrong size", eq(bad, ne(n, m)))
    E.prove("the constant is the one given, or untouched after a refusal",
            eq(E.asmat(E.read(bl)).get(i, 0), E.asmat(E.read(old if bad else x)).get(i, 0)))
    E.prove("its size is kept", eq(E.asmat(E.read(bl)).r, m))
    E.prove("its annotation is the one given, or untouched", same(E, E.fld(bl, "properties_"), p0 if bad else p))


unit("BasicLinearFunction::b", [BLF + "::b"])(blf_b)


def adder(cls, pat):
    def f(E):
        o = E.obj(cls, "o")
        m = nat(E, "rows")
        x = E.obj(V, "x")
        E.stubs[FOP + "::size"] = lambda E, this, a, fn: m
        J = Jac(E, o, m, x)
        known = J.known
        space, sp, base = E.obj("tvm::Space", "space"), E.fresh("bool", "Euclidean"), E.fresh("bool", "base primitive")
        E.stubs[V + "::space"] = lambda E, this, a, fn: E.deref(space)
        E.stubs["tvm::Space::isEuclidean"] = lambda E, this, a, fn: sp
        E.stubs[V + "::isBasePrimitive"] = lambda E, this, a, fn: base
        vv = E.obj(VV, "vv")
        E.stubs[FOP + "::variables"] = lambda E, this, a, fn: E.deref(vv)
        # the variable is already there, alone or as a part of a variable
        part = known

        def contains(E, this, a, fn):
            E.prove("the presence of the variable given is asked for", eq(E.mkptr(a[0]).a, x.a))
            return part
        E.stubs[VV + "::contains"] = contains
        added = []

        def addv(E, this, a, fn):
            p = E.read(a[0]) if isinstance(a[0], LV) else a[0]
            l = E.read(a[1]) if isinstance(a[1], LV) else a[1]
            added.append(1)
            E.prove("the variable given is declared, as a linear one", And(eq(p.a, x.a), B(l)))
            J.known = True
        E.stubs[FOP + "::addVariable"] = addv
        sl = []

        def at_sub(E, this, a, fn):
            p = E.read(a[0]) if isinstance(a[0], LV) else a[0]
            E.prove("the matrix of the variable given is asked for", eq(p.a, x.a))
            if not J.known:
                raise ThrowX("std::out_of_range")
            cls = fn["rt"]
            pl = J.lv.step("f", "properties_", J.cls)
            st = Struct(cls, {"#eigen": View(J.lv.step("f", "#eigen", J.cls), 0, 0, m, J.n), "properties_": RefVal(pl)})
            return E.local(st, cls)
        for n in E.prog.byname:
            if "MapWithVariableAsKey" in n and n.endswith("::at"):
                E.stubs[n] = at_sub
        r, c = nat(E, "rows given"), nat(E, "columns given")
        a = mat(E, "given", r, c)
        cand = [g for g in E.prog.byname[cls + "::add"] if pat in g["key"]]
        if len(cand) != 1:
            raise Unsupported("%d functions add" % len(cand))
        try:
            E.call(cand[0]["key"], o, [E.local(View(a, 0, 0, r, c)) if "Ref<" in pat else a, E.local(x)])
            bad = False
        except ThrowX:
            bad = True
        i, j = E.skolem("row"), E.skolem("col")
        E.assume(And(le(0, i), lt(i, m), le(0, j), lt(j, J.n)))
        E.prove("a pair is refused exactly when the matrix has a wrong size or the variable is a non-Euclidean one",
                eq(bad, Or(ne(r, m), ne(c, J.n), And(Not(B(sp)), B(base)))))
        g, old, new = E.asmat(E.read(a)), J.old.get(i, j), J.now(E).get(i, j)
        E.prove("the matrix given is added to the one of a variable already there, and is the one of a new variable; nothing "
                "changes after a refusal", eq(new, old if bad else add(old, g.get(i, j)) if known else g.get(i, j)))
        E.prove("its size is kept", And(eq(J.now(E).r, m), eq(J.now(E).c, J.n)))
        pr = E.fld(J.lv, "properties_")
        if bad:
            E.prove("the annotation is untouched after a refusal", same(E, pr, J.prop0))
        else:
            MP = "tvm::internal::MatrixProperties"
            E.prove("nothing but constness is claimed about a general matrix", And(
                eq(pr.get("shape_"), E.prog.enums[MP + "::Shape"]["GENERAL"]),
                eq(pr.get("positiveness_"), E.prog.enums[MP + "::Positiveness"]["NA"]), Not(B(pr.get("symmetric_"))),
                Not(B(pr.get("invertible_")))))
        E.prove("the variable is declared once, if it is new", len(added) == (1 if not bad and not known else 0))
    unit(cls.split("::")[-1] + "::add", [cls + "::add"])(f)


adder(BLC, "")
adder(BLF, "Ref<")


@unit("LinearFunction::setDerivativesToZero", [LF + "::setDerivativesToZero"])
def drift(E):
    c = Lin(E, LF)
    q = E.skolem("variable")
    E.index(q)
    i, j = E.skolem("row"), E.skolem("col")
    E.assume(And(le(0, q), lt(q, c.n)))
    cls = "tvm::internal::ObjectWithProperties<Eigen::Matrix<double, -1, -1, 0, -1, -1>, false>"
    g = E.obj(cls, "JDot of the variable")
    other = E.obj(cls, "JDot of another variable")
    E.assume(ne(g.a, other.a))
    E.write(E.fld_lv(c.o, "normalAcceleration_"), Mat(c.m, 1, E.asmat(E.fld(c.o, "normalAcceleration_")).get))
    for p in (g, other):
        v = E.asmat(E.fld(p, "#eigen"))
        E.assume(And(eq(v.r, c.m), eq(v.c, c.size_(c.var(q)))))

    def entry(E, this, a, fn):
        p = E.read(a[0]) if isinstance(a[0], LV) else a[0]
        return E.deref(g if E.branch(eq(p.a, c.var(q))) else other)
    E.stubs["map operator[]"] = E.stubs["map at"] = entry
    E.loopinv[LF + "::setDerivativesToZero"] = loops.Ind(
        ("cleared so far", lambda E, k, L: Implies(lt(q, k), eq(E.asmat(E.fld(g, "#eigen")).get(i, j), 0))),
        ("sizes", lambda E, k, L: And(*[And(eq(E.asmat(E.fld(p, "#eigen")).r, c.m), eq(E.asmat(E.fld(p, "#eigen")).c,
                                                                                     c.size_(c.var(q)))) for p in (g, other)])))
    E.call(LF + "::setDerivativesToZero", c.o)
    a = E.asmat(E.fld(c.o, "normalAcceleration_"))
    E.assume(And(le(0, i), lt(i, c.m), le(0, j), lt(j, c.size_(c.var(q)))))
    E.prove("the normal acceleration is zero", And(eq(a.get(i, 0), 0), eq(a.r, c.m)))
    E.prove("the derivative of the matrix of every variable is zero", eq(E.asmat(E.fld(g, "#eigen")).get(i, j), 0))


ID = "tvm::function::IdentityFunction"


@unit("IdentityFunction", [ID + "::updateValue_", ID + "::updateVelocity_", ID + "::A", ID + "::b"])
def identity(E):
    c = Lin(E, ID)
    E.assume(eq(c.n, 1))
    x = c.var(0)
    E.assume(eq(c.size_(x), c.m))
    E.stubs[VV + "::operator[]"] = lambda E, this, a, fn: E.local(c.vars.get(E.read(a[0]) if isinstance(a[0], LV) else a[0]))
    i = E.skolem("row")
    E.assume(And(le(0, i), lt(i, c.m)))
    E.call(ID + "::updateValue_", c.o)
    v = E.asmat(E.fld(c.o, "value_"))
    E.prove("the value is the one of the variable", And(eq(v.r, c.m), eq(v.get(i, 0), c.x_(x, I(i)))))
    E.call(ID + "::updateVelocity_", c.o)
    v = E.asmat(E.fld(c.o, "velocity_"))
    E.prove("the velocity is the value of the derivative of the variable",
            And(eq(v.r, c.m), eq(v.get(i, 0), c.x_(c.dot_(x), I(i)))))
    p = E.local(E.sym("tvm::internal::MatrixProperties", "p"), "tvm::internal::MatrixProperties")
    r, k = nat(E, "rows given"), nat(E, "columns given")
    a, b = mat(E, "given", r, k), vec(E, "b", r)
    for f in E.prog.byname[ID + "::A"] + E.prog.byname[ID + "::b"]:
        args = [E.local(View(b, 0, 0, r, 1)), p] if f["name"].endswith("::b") else [E.local(View(a, 0, 0, r, k))] + (
            [E.deref(E.obj(V, "x")), p] if len(f["params"]) == 3 else [p])
        try:
            E.call(f["key"], c.o, args)
            bad = False
        except ThrowX:
            bad = True
        E.prove("the matrix and the constant of an identity cannot be changed", bad)


# ------------------------------------------------------------------ constructors
class Lists:
    """the matrices and variables given to a constructor: any numbers of them"""

    def __init__(s, E, cls):
        s.E = E
        s.A = E.sym("std::vector<Eigen::Ref<const Eigen::Matrix<double, -1, -1, 0, -1, -1>, 0, Eigen::OuterStride<-1>>>", "A")
        s.X = E.sym("std::vector<std::shared_ptr<tvm::Variable>>", "x")
        s.m = E.fresh("int", "m")
        E.assume(lt(0, s.A.n))
        E.assume(eq(E.asmat(s.A.get(0)).r, s.m))
        s.count = E.local(0)
        s.bad = z3.Function("refused!%d" % E.fresh_id(), z3.IntSort(), z3.BoolSort())
        for f in E.prog.byname[cls + "::add"]:
            E.stubs[f["key"]] = s.add
        for n in (LC + "::LinearConstraint", LF + "::LinearFunction"):
            E.stubs[n] = s.base
        s.basecalls = []
        E.stubs[FOP + "::size"] = lambda E, this, a, fn: s.m
        s.set = []
        E.stubs[LF + "::setDerivativesToZero"] = lambda E, this, a, fn: None

    def base(s, E, this, a, fn):
        s.basecalls.append([E.read(v) if isinstance(v, LV) else v for v in a])

    def add(s, E, this, a, fn):
        k = E.read(s.count)
        A, x = E.asmat(E.read(a[0]) if isinstance(a[0], LV) else a[0]), E.read(a[1]) if isinstance(a[1], LV) else a[1]
        W = E.asmat(s.A.get(k))
        i, j = E.skolem("row"), E.skolem("col")
        E.prove("the pairs are added in order: the variable", eq(x.a, s.X.get(k).a))
        E.prove("the pairs are added in order: the matrix", And(eq(A.r, W.r), eq(A.c, W.c), Implies(
            And(le(0, i), lt(i, A.r), le(0, j), lt(j, A.c)), eq(A.get(i, j), W.get(i, j)))))
        if E.branch(s.bad(I(k))):
            raise ThrowX("std::runtime_error")
        E.write(s.count, add(k, 1))


def ctor(cls, what, lists, n):
    """what: which data follow the lists: "" (none), "b", "lu" """
    def f(E):
        c = Lists(E, cls)
        T, R = E.prog.enums["tvm::constraint::Type"], E.prog.enums["tvm::constraint::RHS"]
        given = {k: vec(E, "given_" + k, nat(E, "size of " + k)) for k in what}
        t, r = T["DOUBLE_SIDED"], R["ZERO"]
        args = [E.local(c.A), E.local(c.X)] + [E.local(View(given[k], 0, 0, E.asmat(E.read(given[k])).r, 1)) for k in what]
        if cls == BLC:
            if what != "lu":
                t = typ(E)
                args.append(t)
            if what:
                r = rhs(E)
                args.append(r)
        got = []

        def put(E, k, v):
            """contract of the setters: a vector of another size is refused"""
            v = E.asmat(E.read(v) if isinstance(v, LV) else v)
            if E.branch(ne(v.r, c.m)):
                raise ThrowX("std::runtime_error")
            got.append((k, v))
        for k in "blu":
            for g in E.prog.byname.get(cls + "::" + k, []):
                if len(g["params"]) >= 1:
                    E.stubs[g["key"]] = lambda E, this, a, fn, k=k: put(E, k, a[0])
        cand = [g for g in E.prog.byname[cls + "::" + cls.split("::")[-1]] if len(g["params"]) == len(args)
                and g["key"].split("(", 1)[1].startswith("const std::vector<Eigen::Ref")
                and g["key"].count("Matrix<double, -1, 1") == len(what)]
        if len(cand) != 1:
            raise Unsupported("%d constructors" % len(cand))
        for name in (BLC + "::BasicLinearConstraint", BLF + "::BasicLinearFunction"):
            E.loopinv[name] = loops.Ind(
                ("pairs added so far", lambda E, k, L: And(eq(E.read(c.count), k), *[eq(x, k) for x in L])),
                ("none refused so far", lambda E, k, L, j: Implies(And(le(0, j), lt(j, k)), Not(c.bad(I(j)))), "all"))
        sizes = And(*[eq(E.asmat(E.read(given[k])).r, c.m) for k in what])
        try:
            E.construct(cls, args, fn=cand[0]["key"], heap=True)
            bad = False
        except ThrowX:
            bad = True
        ok = And(eq(c.A.n, c.X.n), sizes)
        if cls == BLC:
            ok = And(ok, t != T["DOUBLE_SIDED"] or what == "lu", r != R["ZERO"] or what == "")
        k = E.read(c.count)
        if bad:
            E.prove("lists and vectors are refused only when inconsistent, or one pair is refused",
                    Or(Not(ok), And(lt(k, c.X.n), c.bad(I(k)))))
            return
        E.prove("inconsistent lists and vectors are refused", ok)
        E.prove("every pair is added", eq(k, c.A.n))
        E.prove("the base has the number of rows of the first matrix, the type and the convention given",
                And(len(c.basecalls) == 1, *([eq(c.basecalls[0][-1], c.m)] + (
                    [eq(c.basecalls[0][0], t), eq(c.basecalls[0][1], r)] if cls == BLC else []))))
        E.prove("the vectors given are set, once", sorted(x[0] for x in got) == sorted(what))
        i = E.skolem("component")
        for q, v in got:
            if q in given:
                g = E.asmat(E.read(given[q]))
                E.prove("the vectors given are set", And(eq(v.r, g.r), Implies(And(le(0, i), lt(i, g.r)), eq(v.get(i, 0), g.get(i, 0)))))
    unit("%s::%s(A, x%s)" % (cls.split("::")[-1], cls.split("::")[-1], "".join(", " + k for k in what)),
         [cls + "::" + cls.split("::")[-1]])(f)


ctor(BLC, "", True, 0)
ctor(BLC, "b", True, 0)
ctor(BLC, "lu", True, 0)
ctor(BLF, "b", True, 0)
