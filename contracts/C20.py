"""C20: rows of a solver are allotted contiguously and follow every change."""
from engine.run import unit
from values import *
import loops
TUS = ["src/VariableVector.cpp", "src/solver/LeastSquareSolver.cpp", "src/constraint/Constraint.cpp"]
DRIVER = "C20.cpp"
SOURCES = None
DRIVER_FLAGS = ("-I" + __file__.rsplit("/contracts", 1)[0] + "/replay/backends",)
DRIVER_S = 60
BOUNDED = "LeastSquareSolver::process as a whole, the processing of removed constraints and of weight events, and the solvers derived from " \
          "the class (stand-ins for the external back ends, least-squares and hierarchical): random problems and histories of additions, " \
          "removals and changes of weights; after each, rows are disjoint, contiguous, fill the declared sizes, and the assembled data " \
          "equal those of a problem built from scratch"
ASSUMPTIONS = ["sizes and types of constraints do not change while they are in a solver"]
TRUSTED = ["the virtual functions of the solvers only append assignments (their rows are checked on the real solvers by the bounded part)",
           "std::map, std::vector, std::shared_ptr"]
S = "tvm::solver::abstract::LeastSquareSolver"
SE = "tvm::solver::internal::SolverEvents"
C = "tvm::constraint::abstract::Constraint"
FOP = "tvm::internal::FirstOrderProvider"
DS = 3      # double-sided
MAPS = {"eq": "equalityConstraintToAssignments_", "ineq": "inequalityConstraintToAssignments_",
        "obj": "objectiveToAssignments_", "bound": "boundToAssignments_"}
IMP = S + "::ImpactFromChanges"
IMPF = ("equalityConstraints_", "inequalityConstraints_", "bounds_", "objectives_")


def el(v, j):
    """j-th pointer of a list, whose length may be known to be 0"""
    n = simp(v.n)
    return 0 if not isz(n) and n == 0 else v.get(j).a


class Solver:
    def __init__(s, E):
        s.E = E
        s.o = E.obj(S, "solver")
        s.size_ = z3.Function("size!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())
        s.dbl = E.input("two-sided constraints are handled", E.sym("bool", "dbl"))
        s.type_ = z3.Function("type!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())
        E.stubs[C + "::type"] = lambda E, this, a, fn: s.type(s.addr(this))
        E.stubs[C + "::isEquality"] = lambda E, this, a, fn: eq(s.type(s.addr(this)), 0)
        E.stubs[FOP + "::size"] = lambda E, this, a, fn: s.size(s.addr(this))
        E.stubs[S + "::handleDoubleSidedConstraint_"] = lambda E, this, a, fn: s.dbl

    def addr(s, v):
        return I(simp(s.E.mkptr(v).a if isinstance(v, LV) else v.a))

    def size(s, a):
        x = s.size_(I(a))
        s.E.fact(x >= 0)
        return x

    def type(s, a):
        t = s.type_(I(a))
        s.E.fact(And(le(0, t), le(t, DS)))
        return t

    def rows(s, a):
        """rows a constraint takes in the solver"""
        return ite(And(eq(s.type(a), DS), Not(s.dbl)), mul(2, s.size(a)), s.size(a))

    def f(s, n):
        return s.E.fld(s.o, n)

    def frame(s, *names):
        """the fields of the solver, but those named, to be compared after the call"""
        E = s.E
        return {fr["name"]: s.f(fr["name"]) for c, fr in E.prog.fields(S) if fr["name"] not in names}

    def check_frame(s, fr):
        for n, v in fr.items():
            v1 = s.f(n)
            if isinstance(v, Vec):
                s.E.prove("unchanged: " + n, eq(v1.n, v.n))
            elif isinstance(v, MapV):
                k = s.E.skolem("key")
                s.E.prove("unchanged: " + n, eq(B(v1.has(k)), B(v.has(k))))
            elif isinstance(v, Ptr):
                s.E.prove("unchanged: " + n, eq(v1.a, v.a))
            elif isscalar(v):
                s.E.prove("unchanged: " + n, eq(v1, v))


@unit("constraintSize", [S + "::constraintSize"])
def csize(E):
    s = Solver(E)
    c = E.obj("tvm::constraint::abstract::LinearConstraint", "c")
    E.prove("a two-sided constraint counts twice when the solver does not handle them, any other once",
            eq(E.call(S + "::constraintSize", s.o, [E.deref(c)]), s.rows(c.a)))


@unit("Constraint::type, isEquality", [C + "::type", C + "::isEquality"])
def ctype(E):
    c = E.obj("tvm::constraint::abstract::LinearConstraint", "c")
    t = E.input("type", E.call(C + "::type", c))
    E.prove("isEquality: type EQUAL", eq(B(E.call(C + "::isEquality", c)), eq(t, E.prog.enums["tvm::constraint::Type"]["EQUAL"])))


@unit("startBuild", [S + "::startBuild"])
def start(E):
    s = Solver(E)
    n = [E.input(x, E.sym("int", x)) for x in ("nObj", "nEq", "nIneq")]
    for x in n:
        E.assume(le(0, x))
    ub = E.sym("bool", "useBounds")
    init = []

    def initialize(E, this, a, fn):
        init.append([E.read(x) if isinstance(x, LV) else x for x in a])
        init[-1].append([E.fld(s.o, m).n if isinstance(E.fld(s.o, m), Vec) else None for m in ("assignments_",)])
    E.stubs[S + "::initializeBuild_"] = initialize
    vv = E.obj("tvm::VariableVector", "x")
    subs = E.sym("const tvm::hint::internal::Substitutions *", "subs")
    E.call(S + "::startBuild", s.o, [E.deref(vv)] + [E.local(x) for x in n] + [E.local(ub), E.local(subs)])
    E.prove("the solver is sized once, as declared", len(init) == 1)
    if len(init) == 1:
        E.prove("with the declared sizes", And(*[eq(a, b) for a, b in zip(init[0][:3], n)], eq(init[0][3], ub)))
    E.prove("the declared sizes are kept", And(eq(s.f("nObj_"), n[0]), eq(s.f("nEq_"), n[1]), eq(s.f("nIneq_"), n[2])))
    E.prove("no row is taken yet", And(eq(s.f("objSize_"), 0), eq(s.f("eqSize_"), 0), eq(s.f("ineqSize_"), 0)))
    k = E.skolem("constraint")
    for m in MAPS.values():
        E.prove("no assignment of a former problem remains: " + m, Not(B(s.f(m).has(k))))
    E.prove("no assignment of a former problem remains", eq(s.f("assignments_").n, 0))
    E.prove("the problem is on the variables and substitutions given, the build is open",
            And(eq(s.f("variables_").a, vv.a), eq(s.f("subs_").a, subs.a), s.f("buildInProgress_")))


def adding(E, kind):
    """a constraint, objective or bound is added: the solver is asked for it once, when the size counters are those of what
    was added before; the counters then grow by its rows; the assignments made for it, and only them, are attached to it"""
    s = Solver(E)
    E.assume(s.f("buildInProgress_"))
    cnt = {"eq": "eqSize_", "ineq": "ineqSize_", "obj": "objSize_", "bound": None}[kind]
    virt = {"eq": "addEqualityConstraint_", "ineq": "addIneqalityConstraint_", "obj": "addObjective_", "bound": "addBound_"}[kind]
    call = {"eq": "addConstraint", "ineq": "addConstraint", "obj": "addObjective", "bound": "addBound"}[kind]
    f = [f for f in E.prog.byname[S + "::" + call]][0]
    c = E.sym(f["params"][0]["t"], "c")
    E.assume(ne(c.a, 0))
    E.input("type", s.type(c.a))
    if kind in ("eq", "ineq"):
        E.assume(eq(eq(s.type(c.a), 0), kind == "eq"))
    args = [E.local(c, f["params"][0]["t"])]
    if kind == "obj":
        req = E.sym(f["params"][1]["t"], "req")
        E.assume(ne(req.a, 0))
        w = E.sym("double", "w")
        args += [E.local(req, f["params"][1]["t"]), E.local(w)]
        viol = E.input("violation", E.sym("int", "violation"))
        R = "tvm::requirements::"
        for g in E.prog.byname.get(R + "SolvingRequirementsBase<false>::violationEvaluation", []) + \
                E.prog.byname.get(R + "SolvingRequirementsBase<true>::violationEvaluation", []) + \
                E.prog.byname.get(R + "SolvingRequirementsBase<false>::priorityLevel", []):
            E.stubs[g["key"]] = lambda E, this, a, fn, g=g: E.local(E.sym(g["rt"], g["name"]))
        for n in list(E.prog.byname):
            if n.endswith("::value") and "SingleSolvingRequirement<" in n:
                for g in E.prog.byname[n]:
                    E.stubs[g["key"]] = lambda E, this, a, fn, n=n: viol if "ViolationEvaluationType" in n else 1
    vv = E.obj("tvm::VariableVector", "x")
    if kind == "bound":
        E.assume(eq(s.f("variables_").a, vv.a))
        xi = E.obj("tvm::Variable", "xi")
        rs, rd = E.sym("int", "start"), E.sym("int", "dim")
        bv = E.obj("tvm::VariableVector", "bv")
        E.assume(eq(E.fld(bv, "variables_").n, 1))
        E.assume(eq(E.fld(bv, "variables_").get(0).a, xi.a))
        E.stubs[FOP + "::variables"] = lambda E, this, a, fn: E.deref(bv)

        def mapping(E, this, a, fn):
            E.prove("the slot is that of the variable among those of the problem", And(eq(s.addr(this), xi.a), eq(s.addr(a[0]), vv.a)))
            return Struct("tvm::Range", {"start": rs, "dim": rd})
        E.stubs["tvm::Variable::getMappingIn"] = mapping
    seen = []
    V0, M0 = s.f("assignments_"), s.f(MAPS[kind])
    c0 = {n: s.f(n) for n in ("eqSize_", "ineqSize_", "objSize_")}
    new = E.input("assignments made", E.fresh("int", "new"))
    E.assume(le(0, new))
    mk = z3.Function("made!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())

    def virtual(E, this, a, fn):
        seen.append({n: s.f(n) for n in c0})
        seen[-1]["c"] = E.read(a[0]) if isinstance(a[0], LV) else a[0]
        seen[-1]["a"] = [E.read(x) if isinstance(x, LV) else x for x in a[1:]]
        V = s.f("assignments_")
        x0 = V.get(0)
        E.setfld(s.o, "assignments_", Vec(simp(add(V.n, new)), lambda k: Ptr(ite(lt(k, V.n), V.get(k).a, mk(I(k))), x0.cls, x0.own), V.et))
    E.stubs[S + "::" + virt] = virtual
    A0 = M0.get(I(c.a))
    old = ite(B(M0.has(I(c.a))), A0.n, 0)
    E.assume(le(0, old))
    tgt = lambda: s.f(MAPS[kind]).get(I(c.a))
    o = E.skolem("other")
    E.loopinv["(anonymous namespace)::AutoMap::~AutoMap"] = loops.Ind(
        ("size", lambda E, k, L: And(eq(tgt().n, add(old, k)), B(s.f(MAPS[kind]).has(I(c.a))))),
        ("former", lambda E, k, L, j: Implies(lt(j, old), eq(el(tgt(), j), A0.get(j).a)), "all"),
        ("attached", lambda E, k, L, j: Implies(lt(j, k), eq(el(tgt(), simp(add(old, j))), mk(I(simp(add(V0.n, j)))))), "all"),
        ("others", lambda E, k, L: Implies(ne(o, c.a), eq(B(s.f(MAPS[kind]).has(o)), B(M0.has(o))))))
    fr = s.frame("assignments_", MAPS[kind], cnt)
    if kind == "obj":
        r = E.call_x(f["key"], s.o, args)
        L2 = E.prog.enums["tvm::requirements::ViolationEvaluationType"]["L2"]
        E.prove("only violations in 2-norm are accepted", eq(r[0] == "throw", ne(viol, L2)))
        if r[0] == "throw":
            E.prove("nothing is added on refusal", And(len(seen) == 0, eq(s.f("objSize_"), c0["objSize_"]), eq(s.f("assignments_").n, V0.n),
                    eq(B(s.f(MAPS[kind]).has(o)), B(M0.has(o)))))
            return
    else:
        E.call(f["key"], s.o, args)
    E.prove("the solver is asked to add it, once", len(seen) == 1)
    if len(seen) != 1:
        return
    E.prove("it is the one given", eq(seen[0]["c"].a, c.a))
    for n in c0:
        E.prove("it is given the rows that follow those already taken", eq(seen[0][n], c0[n]))
    if cnt:
        rows = s.size(c.a) if kind == "obj" else s.rows(c.a)
        E.prove("its rows are then taken", eq(s.f(cnt), add(c0[cnt], rows)))
    if kind == "obj":
        E.prove("with its requirements and weight", And(eq(seen[0]["a"][0].a, req.a), eq(seen[0]["a"][1], w)))
    if kind == "bound":
        rg = E.deref(seen[0]["a"][0])
        E.prove("with the slot of its variable", And(eq(E.read(rg).get("start"), rs), eq(E.read(rg).get("dim"), rd)))
    M1 = s.f(MAPS[kind])
    E.prove("the constraint is known, and no other one appears", And(B(M1.has(I(c.a))), Implies(ne(o, c.a), eq(B(M1.has(o)), B(M0.has(o))))))
    A1 = M1.get(I(c.a))
    j = E.skolem("j")
    E.index(add(j, V0.n))
    E.prove("the assignments made for it are attached to it", And(eq(A1.n, add(old, new)),
            Implies(And(le(0, j), lt(j, new)), eq(el(A1, simp(add(old, j))), mk(I(simp(add(V0.n, j))))))))
    E.prove("those it had are kept", Implies(And(le(0, j), lt(j, old)), eq(el(A1, j), A0.get(j).a)))
    s.check_frame(fr)


for kind_, n_ in (("eq", "addConstraint"), ("ineq", "addConstraint"), ("bound", "addBound"), ("obj", "addObjective")):
    unit("%s (%s)" % (n_, kind_), [S + "::" + n_, "AutoMap"])(lambda E, k=kind_: adding(E, k))


class Added:
    """arbitrary pending additions, and the partial sums of the rows they take"""

    def __init__(s, w):
        E = s.E = w.E
        s.se = E.obj(SE, "se")
        s.c, s.b, s.ob = (E.fld(s.se, n) for n in ("addedConstraints_", "addedBounds_", "addedObjectives_"))
        i = E.fresh_id()
        Z = z3.IntSort()
        s.P = {}
        for n, v, rows in (("eq", s.c, lambda k: ite(eq(w.type(s.c.get(k).a), 0), w.rows(s.c.get(k).a), 0)),
                           ("ineq", s.c, lambda k: ite(eq(w.type(s.c.get(k).a), 0), 0, w.rows(s.c.get(k).a))),
                           ("obj", s.ob, lambda k: w.size(s.ob.get(k).get("c").a))):
            f = z3.Function("rows %s!%d" % (n, i), Z, Z)
            s.P[n] = f
            E.fact(f(0) == 0)
            E.fact(le(0, v.n))
            E.input("added " + n, v.n)
            E.forall(lambda k, f=f, v=v, rows=rows: Implies(And(le(0, k), lt(k, v.n)), And(
                eq(f(simp(add(k, 1))), add(f(I(k)), rows(k))), le(0, rows(k)))))
        for n, v, at in (("c", s.c, lambda k: s.c.get(k).a), ("b", s.b, lambda k: s.b.get(k).a), ("o", s.ob, lambda k: s.ob.get(k).get("c").a)):
            E.forall(lambda k, v=v, at=at: Implies(And(le(0, k), lt(k, v.n)), ne(at(k), 0)))


@unit("previewAddedConstraints", [S + "::previewAddedConstraints", S + "::constraintSize", S + "::applyImpactLogic"])
def preview(E):
    w = Solver(E)
    a = Added(w)
    n0 = {n: w.f(n) for n in ("nEq_", "nIneq_", "nObj_")}
    fr = w.frame("nEq_", "nIneq_", "nObj_", "eqSize_", "ineqSize_", "objSize_")
    E.loopinv[S + "::previewAddedConstraints"] = [
        loops.Ind(("rows of the constraints", lambda E, k, L: And(eq(w.f("nEq_"), add(n0["nEq_"], a.P["eq"](I(k)))),
                                                                 eq(w.f("nIneq_"), add(n0["nIneq_"], a.P["ineq"](I(k))))))),
        loops.Ind(("rows of the objectives", lambda E, k, L: eq(w.f("nObj_"), add(n0["nObj_"], a.P["obj"](I(k))))))]
    r = E.call(S + "::previewAddedConstraints", w.o, [E.deref(a.se)])
    for n, sz, p, v in (("nEq_", "eqSize_", "eq", a.c), ("nIneq_", "ineqSize_", "ineq", a.c), ("nObj_", "objSize_", "obj", a.ob)):
        E.prove("the declared size grows by the rows of what is added: " + n, eq(w.f(n), add(n0[n], a.P[p](I(v.n)))))
        E.prove("the rows taken are those there were: " + n, eq(w.f(sz), n0[n]))
    E.prove("equality constraints are impacted when their size changes", eq(r.get("equalityConstraints_"), ne(a.P["eq"](I(a.c.n)), 0)))
    E.prove("inequality constraints are impacted when their size changes", eq(r.get("inequalityConstraints_"), ne(a.P["ineq"](I(a.c.n)), 0)))
    E.prove("objectives are impacted when some are added", eq(r.get("objectives_"), lt(0, a.ob.n)))
    w.check_frame(fr)


@unit("processAddedConstraints", [S + "::processAddedConstraints"])
def added(E):
    """what is added takes exactly the rows left (the assertions of the function hold), given what addConstraint, addBound and
    addObjective do (their units) and the sizes declared by previewAddedConstraints (its unit)"""
    w = Solver(E)
    a = Added(w)
    z = {n: w.f(n) for n in ("eqSize_", "ineqSize_", "objSize_")}
    E.assume(And(eq(w.f("nEq_"), add(z["eqSize_"], a.P["eq"](I(a.c.n)))), eq(w.f("nIneq_"), add(z["ineqSize_"], a.P["ineq"](I(a.c.n)))),
                 eq(w.f("nObj_"), add(z["objSize_"], a.P["obj"](I(a.ob.n))))))
    ghost = {n: E.obj(SE, "ghost " + n) for n in ("c", "b", "o")}
    cur = {}

    def stub(kind):
        def h(E, this, args, fn):
            c = E.read(args[0]) if isinstance(args[0], LV) else args[0]
            E.prove("the build is open", w.f("buildInProgress_"))
            if kind == "o":
                x = a.ob.get(cur.get("k", 0))
                q, sc = (E.read(y) if isinstance(y, LV) else y for y in args[1:3])
                E.prove("each objective is added with its requirements and weight", And(eq(c.a, x.get("c").a), eq(q.a, x.get("req").a), eq(sc, x.get("scalarizationWeight"))))
                E.setfld(w.o, "objSize_", simp(add(w.f("objSize_"), w.size(c.a))))
            elif kind == "b":
                E.prove("each bound is added", eq(c.a, a.b.get(cur.get("k", 0)).a))
            else:
                E.prove("each constraint is added", eq(c.a, a.c.get(cur.get("k", 0)).a))
                if E.branch(eq(w.type(c.a), 0)):
                    E.setfld(w.o, "eqSize_", simp(add(w.f("eqSize_"), w.rows(c.a))))
                else:
                    E.setfld(w.o, "ineqSize_", simp(add(w.f("ineqSize_"), w.rows(c.a))))
            cur["n"] = cur.get("n", 0) + 1
        return h
    for n, k in (("addConstraint", "c"), ("addBound", "b"), ("addObjective", "o")):
        E.stubs[S + "::" + n] = stub(k)

    def at(n, what):
        def g(E, k, L):
            cur["k"] = k
            return what(k)
        return (n, g)
    sizes = lambda e, i, o: And(eq(w.f("eqSize_"), add(z["eqSize_"], e)), eq(w.f("ineqSize_"), add(z["ineqSize_"], i)), eq(w.f("objSize_"), add(z["objSize_"], o)),
                                w.f("buildInProgress_"))
    P = a.P
    nc, no = I(a.c.n), I(a.ob.n)
    E.loopinv[S + "::processAddedConstraints"] = [
        loops.Ind(at("rows taken", lambda k: sizes(P["eq"](I(k)), P["ineq"](I(k)), 0))),
        loops.Ind(at("rows taken", lambda k: sizes(P["eq"](nc), P["ineq"](nc), 0))),
        loops.Ind(at("rows taken", lambda k: sizes(P["eq"](nc), P["ineq"](nc), P["obj"](I(k)))))]
    fr = w.frame("eqSize_", "ineqSize_", "objSize_", "buildInProgress_")
    E.call(S + "::processAddedConstraints", w.o, [E.deref(a.se)])
    E.prove("all the rows are taken", And(eq(w.f("nEq_"), w.f("eqSize_")), eq(w.f("nIneq_"), w.f("ineqSize_")), eq(w.f("nObj_"), w.f("objSize_"))))
    E.prove("the build is closed", Not(w.f("buildInProgress_")))
    w.check_frame(fr)


@unit("finalizeBuild, updateVariables, ImpactFromChanges", [S + "::finalizeBuild", S + "::updateVariables", IMP + "::operator||",
                                                           IMP + "::orAssign", IMP + "::any", SE + "::hasHiddenVariableChange"])
def impact(E):
    w = Solver(E)
    if E.choose("finalizeBuild"):
        for x, y in (("nObj_", "objSize_"), ("nEq_", "eqSize_"), ("nIneq_", "ineqSize_")):
            E.assume(eq(w.f(x), w.f(y)))
        E.call(S + "::finalizeBuild", w.o)
        E.prove("the build is closed", Not(w.f("buildInProgress_")))
        return
    if E.choose("updateVariables"):
        se = E.obj(SE, "se")
        r = B(E.call(S + "::updateVariables", w.o, [E.deref(se)]))
        E.prove("the mappings are updated when variables came or went, even when their changes compensate",
                eq(r, Or(lt(0, E.fld(se, "addedVariables_").n), lt(0, E.fld(se, "removedVariables_").n), E.fld(se, "hiddenVariableChange_"))))
        return
    a, b = E.sym(IMP, "a"), E.sym(IMP, "b")
    x = E.sym("bool", "x")
    la, lb = E.local(a, IMP), E.local(b, IMP)
    fs = E.prog.byname[IMP + "::operator||"]
    fb = [f for f in fs if f["params"][0]["t"] == "bool"]
    fi = [f for f in fs if f["params"][0]["t"] != "bool"]
    if fb and E.choose("|| bool"):
        r, other = E.call(fb[0]["key"], la, [E.local(x)]), {n: x for n in IMPF}
    elif E.choose("||"):
        r, other = E.call(fi[0]["key"], la, [lb]), {n: b.get(n) for n in IMPF}
    else:
        E.call(IMP + "::orAssign", la, [lb])
        r, other = E.read(la), {n: b.get(n) for n in IMPF}
    for n in IMPF:
        E.prove("impacts add up: " + n, eq(r.get(n), Or(a.get(n), other[n])))
    E.prove("any: some are impacted", eq(B(E.call(IMP + "::any", la)), Or(*[E.read(la).get(n) for n in IMPF])))
