"""C18: pending changes are coalesced without losing or inventing any."""
from engine.run import unit
from values import *
import loops
TUS = ["src/ControlProblem.cpp", "src/solver/LeastSquareSolver.cpp"]
DRIVER = "C18.cpp"
SOURCES = None
DRIVER_FLAGS = ("-I" + __file__.rsplit("/contracts", 1)[0] + "/replay/backends",)
DRIVER_S = 60
BOUNDED = "the resolution scheme's processing of the queue (weighted least squares, with and without substitutions) and of the solver events: " \
          "random histories of additions, removals, changes of weights and resolutions, compared with a problem made from scratch"
ASSUMPTIONS = ["a task is in a problem at most once", "an objective is not removed and added again with another weight between two deliveries "
               "(no caller does)"]
TRUSTED = ["std::queue, std::deque, std::vector, std::map, std::find, std::find_if",
           "the iteration of ControlProblem::notify over the computation data (checked by the bounded part)"]
SE = "tvm::solver::internal::SolverEvents"


class Events:
    """the changes pending for a solver whose content is the ghost set `base` (per kind): the added are not in the base, the
    removed are, none is listed twice"""

    def __init__(s, E, add, rem, objective=False):
        s.E, s.add, s.rem, s.objective = E, add, rem, objective
        s.se = E.obj(SE, "se")
        s.inb = z3.Function("base!%d" % E.fresh_id(), z3.IntSort(), z3.BoolSort())
        s.A0, s.R0 = s.vec(add), s.vec(rem)
        E.input("added", s.A0.n)
        E.input("removed", s.R0.n)
        for n, v, sign in ((add, s.A0, False), (rem, s.R0, True)):
            E.assume(le(0, v.n))
            E.forall(lambda j, n=n, v=v, sign=sign: Implies(And(le(0, j), lt(j, v.n)), And(ne(s.at(n, v, j), 0),
                     s.inb(s.at(n, v, j)) if sign else Not(s.inb(s.at(n, v, j))))))
            s.distinct(n, v)

    def distinct(s, n, v):
        pos = z3.Function("pos!%d" % s.E.fresh_id(), z3.IntSort(), z3.IntSort())
        s.E.forall(lambda i: Implies(And(le(0, i), lt(i, v.n)), eq(pos(s.at(n, v, i)), i)))

    def vec(s, n):
        return s.E.fld(s.se, n)

    def at(s, n, v, j):
        x = v.get(j)
        return I((x.get("c") if isinstance(x, Struct) else x).a)

    def others(s):
        return {f["name"]: s.E.fld(s.se, f["name"]) for _, f in s.E.prog.fields(SE) if f["name"] not in (s.add, s.rem)}


def change(E, kind, addition):
    """addition (or removal) of an element that is absent from (present in) the content with the pending changes applied"""
    up, dn = ("added", "removed") if addition else ("removed", "added")
    ev = Events(E, "added" + kind + "_", "removed" + kind + "_")
    obj = kind == "Objectives"
    E.memo["kind"] = kind
    c = E.input("c", E.skolem("c"))
    E.assume(lt(0, c))
    to, fr = up + kind + "_", dn + kind + "_"
    T0, F0 = ev.vec(to), ev.vec(fr)
    # an addition: the element is not pending, and in the content only when removed; a removal: the opposite
    w = E.skolem("w")
    E.index(w)
    back = E.input("undone", E.sym("bool", "undone"))
    E.assume(Implies(back, And(le(0, w), lt(w, F0.n), eq(ev.at(fr, F0, w), c))))
    E.forall(lambda j: Implies(And(le(0, j), lt(j, F0.n), Not(back)), ne(ev.at(fr, F0, j), c)))
    E.assume(eq(ev.inb(c), back if addition else Not(back)))
    E.forall(lambda j: Implies(And(le(0, j), lt(j, T0.n)), ne(ev.at(to, T0, j), c)))
    keep = {n: v for n, v in ev.others().items()}
    h0 = E.fld(ev.se, "hiddenVariableChange_")
    name = ("add" if addition else "remove") + {"Constraints": "Constraint", "Bounds": "Bound", "Objectives": "Objective",
                                                "Variables": "Variable"}[kind]
    f = E.prog.byname[SE + "::" + name][0]
    if obj and addition:
        o = E.sym(SE + "::Objective", "o")
        E.assume(eq(o.get("c").a, c))
        arg = E.local(o, SE + "::Objective")
    else:
        t = f["params"][0]["t"]
        v = E.sym(t, "arg")
        E.assume(eq(v.a, c))
        arg = E.local(v, t)
    E.call(f["key"], ev.se, [arg])
    T1, F1 = ev.vec(to), ev.vec(fr)
    j = E.skolem("j")
    # the list of the opposite changes
    E.prove("an opposite pending change is dropped, and only it", eq(F1.n, sub(F0.n, ite(back, 1, 0))))
    E.prove("a change is recorded unless it undoes one", eq(T1.n, add(T0.n, ite(back, 0, 1))))
    E.prove("the change no longer has its opposite pending", Implies(And(le(0, j), lt(j, F1.n)), ne(ev.at(fr, F1, j), c)))
    E.prove("no opposite change is invented", Implies(And(le(0, j), lt(j, F1.n)), Or(
        eq(ev.at(fr, F1, j), ev.at(fr, F0, j)), And(back, le(w, j), eq(ev.at(fr, F1, j), ev.at(fr, F0, add(j, 1)))))))
    E.prove("no opposite change on something else is lost", Implies(And(le(0, j), lt(j, F0.n), ne(ev.at(fr, F0, j), c)), Or(
        And(lt(j, F1.n), eq(ev.at(fr, F1, j), ev.at(fr, F0, j))),
        And(lt(0, j), eq(ev.at(fr, F1, sub(j, 1)), ev.at(fr, F0, j))))))
    E.prove("the former changes are kept", Implies(And(le(0, j), lt(j, T0.n)), eq(ev.at(to, T1, j), ev.at(to, T0, j))))
    E.prove("the new change is that asked for", Implies(Not(back), eq(ev.at(to, T1, T0.n), c)))
    i = E.skolem("i")
    for n, v in ((to, T1), (fr, F1)):
        E.prove("nothing is listed twice", Implies(And(le(0, i), lt(i, j), lt(j, v.n)), ne(ev.at(n, v, i), ev.at(n, v, j))))
    if obj and addition:
        x = T1.get(T0.n)
        for fl in ("req",):
            E.prove("the objective keeps its " + fl, Implies(Not(back), eq(x.get(fl).a, o.get(fl).a)))
        E.prove("the objective keeps its weight", Implies(Not(back), eq(x.get("scalarizationWeight"), o.get("scalarizationWeight"))))
    for n, v in keep.items():
        v1 = E.fld(ev.se, n)
        if isinstance(v, Vec):
            E.prove("no other list changes: " + n, eq(v1.n, v.n))
    h1 = E.fld(ev.se, "hiddenVariableChange_")
    if kind == "Variables":
        E.prove("a change of variables that leaves no trace in the lists is flagged", eq(h1, Or(h0, back)))
    else:
        E.prove("no change of variables is flagged", eq(h1, h0))


for kind_ in ("Constraints", "Bounds", "Objectives", "Variables"):
    for addition_ in (True, False):
        n_ = ("add" if addition_ else "remove") + kind_[:-1]
        unit("SolverEvents::" + n_, [SE + "::" + n_] + ([] if kind_ == "Objectives" else [SE + "::addIfPair"]))(
            lambda E, k=kind_, a=addition_: change(E, k, a))


@unit("SolverEvents::addScalarWeightEvent, addVectorWeightEvent", [SE + "::addScalarWeightEvent", SE + "::addVectorWeightEvent"])
def weights(E):
    se = E.obj(SE, "se")
    n = "weightEvents_"
    V0 = E.fld(se, n)
    E.input("events", V0.n)
    pos = z3.Function("pos!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())
    a = lambda v, j: I(v.get(j).get("c").a)
    E.forall(lambda i: Implies(And(le(0, i), lt(i, V0.n)), eq(pos(a(V0, i)), i)))
    scalar = E.choose("scalar")
    f = E.prog.byname[SE + ("::addScalarWeightEvent" if scalar else "::addVectorWeightEvent")][0]
    c = E.sym(f["params"][0]["t"], "c")
    E.input("c", I(c.a))
    keep = {x["name"]: E.fld(se, x["name"]) for _, x in E.prog.fields(SE) if x["name"] != n}
    E.call(f["key"], se, [E.local(c, f["params"][0]["t"])])
    V1 = E.fld(se, n)
    mine, other = ("scalar", "vector") if scalar else ("vector", "scalar")
    j, i = E.skolem("j"), E.skolem("i")
    E.assume(And(le(0, j), lt(j, V1.n)))
    c = I(c.a)
    E.prove("one event at most is added", And(le(V0.n, V1.n), le(V1.n, add(V0.n, 1))))
    E.prove("the former events are kept", Implies(lt(j, V0.n), And(eq(a(V1, j), a(V0, j)), eq(V1.get(j).get(other), V0.get(j).get(other)),
            Implies(ne(a(V0, j), c), eq(V1.get(j).get(mine), V0.get(j).get(mine))))))
    E.prove("all events of the constraint have the kind asked for", Implies(eq(a(V1, j), c), V1.get(j).get(mine)))
    E.prove("an added event is that asked for", Implies(le(V0.n, j), And(eq(a(V1, j), c), V1.get(j).get(mine), Not(V1.get(j).get(other)))))
    # delivered: when nothing was added, the constraint was listed already (the search went through the list)
    w = simp(pos(c))
    E.prove("the change is delivered", Or(lt(V0.n, V1.n), And(le(0, w), lt(w, V0.n), eq(a(V1, w), c), V1.get(w).get(mine))))
    E.prove("no constraint is listed twice", Implies(And(le(0, i), lt(i, j)), ne(a(V1, i), a(V1, j))))
    for k, v in keep.items():
        v1 = E.fld(se, k)
        E.prove("nothing else changes: " + k, eq(v1.n, v.n) if isinstance(v, Vec) else eq(v1, v))


PCD = "tvm::scheme::internal::ProblemComputationData"
EV = "tvm::scheme::internal::ProblemDefinitionEvent"
EQ = PCD + "::EventQueue"


class Queue:
    def __init__(s, E):
        s.E = E
        s.d = E.obj(PCD, "data")
        s.V0 = s.vec()
        E.input("queued", s.V0.n)
        s.T = E.prog.enums[EV + "::Type"]

    def vec(s):
        return s.E.fld(s.d, "events_").get("c")

    def same(s, x, y):
        return And(eq(I(x.get("emitter_").a), I(y.get("emitter_").a)), eq(x.get("type_"), y.get("type_")))


@unit("ProblemComputationData::addEvent", [PCD + "::addEvent"], limit=3000)
def addevent(E):
    q = Queue(E)
    V0, T = q.V0, q.T
    e = E.sym(EV, "e")
    te = E.input("type", e.get("type_"))
    em = I(e.get("emitter_").a)
    E.assume(And(le(0, te), lt(te, len(T))))
    t = lambda v, i: v.get(i).get("type_")
    mine = lambda v, i: eq(I(v.get(i).get("emitter_").a), em)
    drop = lambda v, i: And(mine(v, i), ne(t(v, i), T["TaskRemoval"]))
    # ghost: an addition of the task may be queued, once
    have, w = E.input("addition queued", E.sym("bool", "have")), E.skolem("w")
    E.index(w)
    E.assume(Implies(have, And(le(0, w), lt(w, V0.n), mine(V0, w), eq(t(V0, w), T["TaskAddition"]))))
    E.forall(lambda i: Implies(And(le(0, i), lt(i, V0.n), mine(V0, i), eq(t(V0, i), T["TaskAddition"])), And(have, eq(i, w))))
    # ghost: cnt(i) events to be dropped before i, org(j) origin of the j-th event left
    cnt = z3.Function("cnt!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())
    org = z3.Function("org!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())
    E.assume(eq(cnt(0), 0))
    ax = lambda i: And(eq(cnt(add(i, 1)), add(cnt(I(i)), ite(drop(V0, i), 1, 0))),
                       Implies(Not(drop(V0, i)), eq(org(sub(i, cnt(I(i)))), i)))
    E.forall(lambda i: Implies(And(le(0, i), lt(i, V0.n)), ax(i)))

    def at(E, L):
        V = q.vec()
        dn = simp(sub(V0.n, V.n))
        bs = [x for x in L if not isz(x) and isinstance(x, bool) or isz(x) and z3.is_bool(x)]
        ks = [x for x in L if x is not True and x is not False and not (isz(x) and z3.is_bool(x))]
        if len(bs) != 1 or len(ks) != 1:
            raise Unsupported("the state of the loop")
        return V, dn, ks[0], bs[0], simp(add(ks[0], dn))

    def bounds(E, L):
        V, dn, k, ad, m = at(E, L)
        E.index(k)
        E.index(m)
        return And(le(0, k), le(k, V.n), le(0, dn), eq(dn, cnt(m)))

    def flag(E, L):
        V, dn, k, ad, m = at(E, L)
        return eq(ad, Not(And(have, lt(w, m))))

    def rest(E, L, j):
        V, dn, k, ad, m = at(E, L)
        E.index(simp(add(j, dn)))
        return Implies(And(le(k, j), lt(j, V.n)), q.same(V.get(j), V0.get(simp(add(j, dn)))))

    def kept(E, L, j):
        V, dn, k, ad, m = at(E, L)
        p = simp(sub(j, cnt(I(j))))
        return Implies(And(lt(j, m), Not(drop(V0, j))), And(le(0, p), lt(p, k), q.same(V.get(p), V0.get(j))))

    def left(E, L, j):
        V, dn, k, ad, m = at(E, L)
        o = org(I(j))
        return Implies(lt(j, k), And(le(0, o), lt(o, m), q.same(V.get(j), V0.get(o)), Not(drop(V0, o))))
    E.loopinv[PCD + "::addEvent"] = loops.While(
        ("the position is in the queue", bounds), ("the event is to be added unless the addition of the task was dropped", flag),
        ("what follows is as it was", rest, "all"), ("what is to be kept was", kept, "all"), ("nothing else is left", left, "all"),
        measure=lambda E, L: sub(at(E, L)[0].n, at(E, L)[2]))
    E.call(PCD + "::addEvent", q.d, [E.local(e, EV)])
    V1 = q.vec()
    j = E.skolem("j")
    E.index(j)
    E.assume(And(le(0, j), le(j, V0.n)))
    removal = E.must(eq(te, T["TaskRemoval"]))
    if removal:
        pushed = Not(have)
        n = sub(V0.n, cnt(I(V0.n)))
        E.index(V0.n)
        p = sub(j, cnt(I(j)))
        E.prove("the events of other tasks, and former removals, stay", Implies(And(lt(j, V0.n), Not(drop(V0, j))),
                And(le(0, p), lt(p, n), q.same(V1.get(simp(p)), V0.get(j)))))
        E.prove("a removed task leaves nothing but removals", Implies(And(lt(j, n), mine(V1, j)), eq(t(V1, j), T["TaskRemoval"])))
        E.prove("nothing is invented", Implies(lt(j, n), q.same(V1.get(j), V0.get(org(I(j))))))
    else:
        pushed = True
        n = V0.n
        E.prove("the former events stay, in order", Implies(lt(j, n), q.same(V1.get(j), V0.get(j))))
    E.prove("the event is queued last, unless it undoes a queued addition", And(eq(V1.n, add(n, ite(pushed, 1, 0))),
            Implies(pushed, q.same(V1.get(simp(n)), e))))


@unit("ProblemComputationData::popEvent, hasEvents, clearEvents", [PCD + "::popEvent", PCD + "::hasEvents", PCD + "::clearEvents"])
def pop(E):
    q = Queue(E)
    V0 = q.V0
    E.prove("has events: the queue is not empty", eq(B(E.call(PCD + "::hasEvents", q.d)), lt(0, V0.n)))
    j = E.skolem("j")
    if E.choose("clear"):
        E.call(PCD + "::clearEvents", q.d)
        E.prove("no event is left", eq(q.vec().n, 0))
        return
    E.assume(lt(0, V0.n))
    r = E.call(PCD + "::popEvent", q.d)
    E.prove("the first event is delivered", q.same(r, V0.get(0)))
    V1 = q.vec()
    E.prove("it is removed, and no other", And(eq(V1.n, sub(V0.n, 1)), Implies(And(le(0, j), lt(j, V1.n)), q.same(V1.get(j), V0.get(simp(add(j, 1)))))))


CP = "tvm::ControlProblem"
TWR = "tvm::TaskWithRequirements"


def problem(E):
    p = E.obj(CP, "problem")
    V0 = E.fld(p, "tr_")
    E.input("tasks", V0.n)
    E.forall(lambda i: Implies(And(le(0, i), lt(i, V0.n)), ne(V0.get(i).a, 0)))
    sent = []

    def notify(E, this, a, fn):
        e = E.read(a[0])
        sent.append((e.get("type_"), I(e.get("emitter_").a), E.fld(p, "tr_"), E.fld(p, "callbackTokens_")))
    E.stubs[CP + "::notify"] = notify
    return p, V0, sent


@unit("ControlProblem::add", [CP + "::add"])
def cpadd(E):
    p, V0, sent = problem(E)
    f = [f for f in E.prog.byname[CP + "::add"] if len(f["params"]) == 1][0]
    tr = E.sym(f["params"][0]["t"], "tr")
    E.assume(ne(tr.a, 0))
    cb = []
    E.stubs[CP + "::addCallBackToTask"] = lambda E, this, a, fn: cb.append(I(E.read(a[0]).a if isinstance(a[0], LV) else a[0].a))
    E.call(f["key"], p, [E.local(tr, f["params"][0]["t"])])
    V1 = E.fld(p, "tr_")
    j = E.skolem("j")
    E.prove("the task is added last", And(eq(V1.n, add(V0.n, 1)), eq(V1.get(V0.n).a, tr.a),
            Implies(And(le(0, j), lt(j, V0.n)), eq(V1.get(j).a, V0.get(j).a))))
    E.prove("its changes of weights are listened to", len(cb) == 1 and eq(cb[0], I(tr.a)))
    E.prove("the resolution schemes are told, once", len(sent) == 1)
    if len(sent) == 1:
        E.prove("of the addition of this task", And(eq(sent[0][0], E.prog.enums[EV + "::Type"]["TaskAddition"]), eq(sent[0][1], I(tr.a))))
    E.prove("the problem is to be finalized", Not(E.fld(p, "finalized_")))


@unit("ControlProblem::remove", [CP + "::remove"])
def cpremove(E):
    p, V0, sent = problem(E)
    pos = z3.Function("pos!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())
    E.forall(lambda i: Implies(And(le(0, i), lt(i, V0.n)), eq(pos(I(V0.get(i).a)), i)))   # a task is listed once
    tr = E.obj(TWR, "tr")
    w = simp(pos(I(tr.a)))
    E.index(w)
    there = And(le(0, w), lt(w, V0.n), eq(V0.get(w).a, tr.a))
    there = E.branch(there)
    fin0 = E.fld(p, "finalized_")
    M0 = E.fld(p, "callbackTokens_")
    E.call(CP + "::remove", p, [E.deref(tr)])
    V1, M1 = E.fld(p, "tr_"), E.fld(p, "callbackTokens_")
    j = E.skolem("j")
    other = E.skolem("other task")
    if not there:
        E.prove("nothing is done about a task that is absent", And(len(sent) == 0, eq(V1.n, V0.n), eq(E.fld(p, "finalized_"), fin0)))
        return
    E.prove("one task goes", eq(V1.n, sub(V0.n, 1)))
    E.prove("it is the task given, the order stays", Implies(And(le(0, j), lt(j, V1.n)),
            eq(V1.get(j).a, ite(lt(j, w), V0.get(j).a, V0.get(simp(add(j, 1))).a))))
    E.prove("the resolution schemes are told, once", len(sent) == 1)
    if len(sent) == 1:
        E.prove("of the removal of this task", And(eq(sent[0][0], E.prog.enums[EV + "::Type"]["TaskRemoval"]), eq(sent[0][1], I(tr.a))))
    E.prove("its changes of weights are not listened to any more", Not(B(M1.has(I(tr.a)))))
    E.prove("those of the others are", Implies(ne(other, I(tr.a)), eq(B(M1.has(other)), B(M0.has(other)))))
    E.prove("the problem is to be finalized", Not(E.fld(p, "finalized_")))


@unit("ControlProblem::addCallBackToTask", [CP + "::addCallBackToTask"])
def callbacks(E):
    p, V0, sent = problem(E)
    f = E.prog.byname[CP + "::addCallBackToTask"][0]
    tr = E.sym(f["params"][0]["t"], "tr")
    E.assume(ne(tr.a, 0))
    reg = []

    def register(E, this, a, fn):
        reg.append((E.mkptr(this) if isinstance(this, LV) else this, E.read(a[0]) if isinstance(a[0], LV) else a[0]))
        t = E.sym(fn["rt"], "token")
        E.assume(ne(t.get("token_").a, 0))
        return t
    for g in E.prog.byname["tvm::internal::CallbackManager::registerCallback"]:
        E.stubs[g["key"]] = register
    E.call(f["key"], p, [E.local(tr, f["params"][0]["t"])])
    E.prove("two weights are listened to", len(reg) == 2)
    T = E.prog.enums[EV + "::Type"]
    E.prove("nothing is notified yet", len(sent) == 0)
    M1 = E.fld(p, "callbackTokens_")
    E.prove("the tokens are kept with the task", And(B(M1.has(I(tr.a))), eq(M1.get(I(tr.a)).n, 2)))
    import interp
    for i, ty in enumerate(("WeightChange", "AnisotropicWeightChange")):
        del sent[:]
        if len(reg) == 2:
            interp.call_lambda(E, reg[i][1], [])
            E.prove("a change of weight is notified, once", len(sent) == 1)
            E.prove("as a %s of the task" % ty, And(eq(sent[0][0], T[ty]), eq(sent[0][1], I(tr.a))))


@unit("ControlProblem::update, finalize, Updater", [CP + "::update", CP + "::finalize", CP + "::needFinalize", CP + "::Updater::refresh", CP + "::Updater::run"])
def update(E):
    p, V0, sent = problem(E)
    G = "tvm::graph::CallGraph::"
    log = []
    for n in ("clear", "add", "update", "execute"):
        E.stubs[G + n] = lambda E, this, a, fn, n=n: log.append(n)
    for n in ("update_", "finalize_"):
        E.stubs[CP + "::" + n] = lambda E, this, a, fn, n=n: log.append(n)
    fin = E.input("finalized", E.fld(p, "finalized_"))
    up = E.input("graph up-to-date", E.read(E.fld_lv(p, "updater_").step("f", "upToDate_", CP + "::Updater")))
    if E.choose("needFinalize"):
        E.call(CP + "::needFinalize", p)
        fin = False
    E.call(CP + "::update", p)
    f, u = E.branch(fin), E.branch(up)
    want = ([] if f else ([] if u else ["clear", "add", "update"]) + ["finalize_"]) + ["execute", "update_"]
    E.prove("the graph is rebuilt when needed, the problem finalized when needed, then the graph executed and the problem updated", log == want)
    E.prove("the problem is finalized", E.fld(p, "finalized_"))
    E.prove("the graph is up-to-date", Implies(Not(fin), E.read(E.fld_lv(p, "updater_").step("f", "upToDate_", CP + "::Updater"))))
