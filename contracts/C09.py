"""C09: CallGraph, Inputs, nodes. The recursive functions addCall and addOutput are each verified against the contract
of the other: addCall({n, u}) returns the identifier of the call, addOutput(s, o) those of the updates that compute it."""
import z3
from engine.run import unit
from values import *
import lib
import loops
TUS = ["src/graph/CallGraph.cpp"]
DRIVER = "C09.cpp"
SOURCES = ["graph/CallGraph.cpp", "graph/DependencyGraph.cpp", "graph/Inputs.cpp", "graph/Log.cpp", "graph/Logger.cpp"]
DRIVER_S = 10
BOUNDED = "the declaration of inputs and dependencies by nodes (templates of Node.hpp and Inputs.hpp) and whole networks: random acyclic networks " \
          "with updates, internal and input dependencies, forwarded outputs, all sets of requests, rebuilt after changes; the updates run are " \
          "exactly those needed, once, each after what it depends on"
ASSUMPTIONS = ["what an output needs is a function of the declared dependencies, which exists when outputs forward each other without a cycle; the "
               "contract of addCall and addOutput is partial correctness (they end when forwarded outputs have no cycle: calls already met are not visited again)",
               "dependencies do not change while the graph is being built",
               "numbers of updates stay below the limits of int"]
TRUSTED = ["std::map, std::set (any enumeration order), std::vector",
           "the order given by DependencyGraph::order (proved in C08: each node once, after those it depends on)"]
BUDGET = 200
G = "tvm::graph::CallGraph"
AN = "tvm::graph::internal::AbstractNode"
AO = "tvm::graph::abstract::Outputs"
DG = "tvm::graph::internal::DependencyGraph"


def el(v, j):
    """v[j]; anything when there is nothing"""
    return v.get(j) if isz(v.n) or v.n else Struct(G + "::Call", {"node": Ptr(0, AN), "id": 0})


def same(x, y):
    return And(eq(x.get("node").a, y.get("node").a), eq(x.get("id"), y.get("id")))


@unit("CallGraph::Plan::build", [G + "::Plan::build", G + "::update", G + "::Plan::clear", G + "::clear"])
def build(E):
    g = E.obj(G, "graph")
    calls = E.fld(g, "calls_")
    order = E.sym("std::vector<unsigned long>", "order")
    E.input("updates in the plan", order.n)
    E.forall(lambda k: Implies(And(le(0, k), lt(k, order.n)), And(le(0, order.get(k)), lt(order.get(k), calls.n))))
    E.stubs[DG + "::order"] = lambda E, this, a, fn: order
    plan = lambda E: E.fld(g, "plan_").get("plan_")
    E.loopinv[G + "::Plan::build"] = loops.Ind(
        ("length", lambda E, k, L: eq(plan(E).n, k)),
        ("calls", lambda E, k, L, j: Implies(And(le(0, j), lt(j, k)), same(el(plan(E), j), calls.get(order.get(j)))), "all"))
    E.call(G + "::update", g)
    k = E.skolem("k")
    E.assume(And(le(0, k), lt(k, order.n)))
    E.index(order.get(k))
    E.prove("one call per entry of the order", eq(plan(E).n, order.n))
    E.prove("the calls in the order of the graph", same(plan(E).get(k), calls.get(order.get(k))))
    E.prove("the graph is the same", E.fld(g, "calls_") is calls)
    E.stubs[DG + "::clear"] = lambda E, this, a, fn: E.write(cleared, True)
    cleared = E.local(False)
    E.call(G + "::clear", g)
    now = [E.fld(g, f).n for f in ("callId_", "calls_", "visited_")]
    E.prove("cleared: nothing left", And(B(E.read(cleared)), eq(plan(E).n, 0), *[eq(n, 0) for n in now]))


@unit("CallGraph::Plan::execute", [G + "::execute", G + "::Plan::execute", G + "::Call::operator()"])
def execute(E):
    """every call of the plan is run once, in order, and nothing else is run"""
    g = E.obj(G, "graph")
    plan = E.fld(g, "plan_").get("plan_")
    done = E.local(0)
    E.forall(lambda k: Implies(And(le(0, k), lt(k, plan.n)), ne(plan.get(k).get("node").a, 0)))

    def upd(E, this, a, fn):
        k = E.read(done)
        E.index(k)
        c = plan.get(k)
        E.prove("the next call of the plan", And(lt(k, plan.n), eq(this.root[1] if this.root[0] == "h" else -1, c.get("node").a), eq(lib.load(E, a[0]), c.get("id"))))
        E.write(done, add(k, 1))
    E.stubs[AN + "::update"] = upd
    E.loopinv[G + "::Plan::execute"] = loops.Ind(("calls run", lambda E, k, L: eq(E.read(done), k)))
    E.call(G + "::execute", g)
    E.prove("every call of the plan", eq(E.read(done), plan.n))


@unit("CallGraph::CompareCall", [G + "::CompareCall::operator()"])
def compare(E):
    """two calls are the same key exactly when node and identifier are the same"""
    a, b, c = [E.sym(G + "::Call", n) for n in "abc"]
    t = E.local(E.sym(G + "::CompareCall", "cmp"))
    lt2 = lambda x, y: B(E.call(G + "::CompareCall::operator()", t, [E.local(x, G + "::Call"), E.local(y, G + "::Call")]))
    same = And(eq(a.get("node").a, b.get("node").a), eq(a.get("id"), b.get("id")))
    E.prove("equivalent exactly when equal", eq(And(Not(lt2(a, b)), Not(lt2(b, a))), same))
    E.prove("transitive", Implies(And(lt2(a, b), lt2(b, c)), lt2(a, c)))


CALL = G + "::Call"


def call(node, u):
    return Struct(CALL, {"node": node if isinstance(node, Ptr) else Ptr(node, AN), "id": u})


def ftype(E, name):
    return [f["t"] for c, f in E.prog.fields(G) if f["name"] == name][0]


class Graph:
    """a graph with the class invariant; an update is a key (node, id)"""

    def __init__(s, E):
        s.E = E
        s.g = E.obj(G, "graph")
        s.keys = []
        s.nodes = E.local(E.fld(s.g, "calls_").n)           # ghost: nodes of the dependency graph
        s.edges = E.local(Vec(0, lambda j: False, "bool", "edges"))     # ghost: targets of the edges added from s.id
        s.id = None
        ints = lambda n, *ar: z3.Function(n, *([z3.IntSort()] * (ar[0] + 1)))
        # the updates an output needs, as specified: how many, the node and identifier of each
        s.Nn, s.Cn, s.Ci = ints("needs", 2), ints("needs.node", 3), ints("needs.update", 3)
        s.allowed = z3.Function("dependency", z3.IntSort(), z3.BoolSort())
        s.E.forall(s.listed)

    def f(s, name):
        return s.E.fld(s.g, name)

    def listed(s, i):
        """every entry of calls_ has its identifier"""
        calls, ids = s.f("calls_"), s.f("callId_")
        if not isz(calls.n) and not calls.n:
            return True
        c = loops.peek(s.E, calls, i)
        return Implies(And(le(0, i), lt(i, calls.n)), And(ids.has(c), eq(ids.get(c), i)))

    def known(s, c):
        """the identifier of a known call is its place in calls_"""
        calls, ids = s.f("calls_"), s.f("callId_")
        i = ids.get(c)
        s.E.index(i)
        return Implies(ids.has(c), And(le(0, i), lt(i, calls.n), same(el(calls, i), c)))

    def inv(s):
        return [eq(s.E.read(s.nodes), s.f("calls_").n)] + [s.known(c) for c in s.keys]

    def key(s, c):
        s.keys.append(c)
        s.E.assume(s.known(c))
        return c

    def need(s, source, o, q):
        """the q-th update needed by an output"""
        a = source.a if isinstance(source, Ptr) else source
        return call(s.Cn(I(a), I(o), I(q)), s.Ci(I(a), I(o), I(q)))

    def num(s, source, o):
        return s.Nn(I(source.a if isinstance(source, Ptr) else source), I(o))

    def grows(s, extra=()):
        """what addCall and addOutput may do to the graph: more calls, those there keep their identifier"""
        E = s.E
        calls, ids = s.f("calls_"), s.f("callId_")
        for x, l in zip(s.inv(), ["as many nodes as calls"] + ["calls have their identifier"] * 99):
            E.prove("recursive call, precondition: " + l, x)
        i = E.skolem("i")
        E.prove("recursive call, precondition: every call is listed under its identifier", s.listed(i))
        nc, ni = E.sym(ftype(E, "calls_"), "calls%d" % E.fresh_id()), E.sym(ftype(E, "callId_"), "ids%d" % E.fresh_id())
        E.setfld(s.g, "calls_", nc)
        E.setfld(s.g, "callId_", ni)
        E.setfld(s.g, "visited_", E.sym(ftype(E, "visited_"), "visited%d" % E.fresh_id()))
        E.write(s.nodes, nc.n)
        E.assume(le(calls.n, nc.n))
        if isz(calls.n) or calls.n:
            E.forall(lambda i: Implies(And(le(0, i), lt(i, calls.n)), same(loops.peek(E, nc, i), loops.peek(E, calls, i))))
        E.forall(lambda i: Implies(And(le(0, i), lt(i, nc.n)), And(ni.has(loops.peek(E, nc, i)), eq(ni.get(loops.peek(E, nc, i)), i))))
        for c in s.keys + list(extra):
            E.assume(And(s.known(c), Implies(ids.has(c), And(ni.has(c), eq(ni.get(c), ids.get(c))))))

    def stub_call(s, dep):
        def h(E, this, args, fn):
            c = lib.load(E, args[0])
            E.prove("only what the update depends on", dep(c))
            s.grows([c])
            ids = s.f("callId_")
            r = E.fresh("int", "call")
            E.assume(And(ids.has(c), eq(r, ids.get(c))))
            E.fact(s.allowed(r))
            return r
        return h

    def stub_output(s, dep):
        def h(E, this, args, fn):
            src, o = lib.load(E, args[0]), lib.load(E, args[1])
            E.prove("only the outputs the update depends on", dep(src, o))
            s.grows()
            ids = s.f("callId_")
            v = E.sym("std::vector<int>", "updates%d" % E.fresh_id())
            E.assume(eq(v.n, s.num(src, o)))
            E.forall(lambda k: Implies(And(le(0, k), lt(k, v.n)), And(s.allowed(loops.peek(E, v, k)), ids.has(s.need(src, o, k)),
                                                                    eq(ids.get(s.need(src, o, k)), loops.peek(E, v, k)))))
            E.write(s.last, src.a)
            E.write(s.lasto, o)
            return v
        return h

    def edge(s, E, this, args, fn):
        i, j = lib.load(E, args[0]), lib.load(E, args[1])
        E.prove("edge from the update", eq(i, s.id(E)))
        E.prove("edge to what it depends on", s.allowed(I(j)))
        old = E.read(s.edges)
        E.write(s.edges, Vec(old.n, lambda k: Or(eq(k, j), old.get(k)), "bool", "edges"))
        return True


@unit("CallGraph::addCall", [G + "::addCall"], limit=4000)
def add_call(E):
    s = Graph(E)
    node = E.obj(AN, "node")
    u = E.input("update", E.fresh("int", "u"))
    c = s.key(call(node, u))
    inner, inputs = E.fld(node, "internalDependencies_"), E.fld(node, "inputDependencies_")
    # one of its dependencies within the node, one of the outputs it depends on and one of the updates this needs
    kd = E.skolem("kd")
    deps = inner.get(u)
    d0 = s.key(call(node, deps.get(kd)))
    s0, o0, q0 = E.sym(AO + " *", "source"), E.fresh("int", "output"), E.skolem("q")
    E.mapkeys += [s0, o0]
    c0 = s.key(s.need(s0, o0, q0))
    x0 = s.key(call(E.sym(AN + " *", "other"), E.fresh("int", "otherUpdate")))      # any other call
    had, had_x, id_x = B(s.f("callId_").has(c)), B(s.f("callId_").has(x0)), s.f("callId_").get(x0)
    n0 = s.f("calls_").n
    s.last, s.lasto = E.local(0), E.local(0)
    s.id = lambda E: n0
    isdep, srcs = z3.Function("isdep", z3.IntSort(), z3.BoolSort()), inputs.get(u)
    E.forall(lambda k: Implies(And(le(0, k), lt(k, deps.n)), isdep(I(deps.get(k)))))
    E.stubs[DG + "::addNode"] = lambda E, this, a, fn: (E.read(s.nodes), E.write(s.nodes, add(E.read(s.nodes), 1)))[0]
    E.stubs[DG + "::addEdge"] = s.edge
    E.stubs[G + "::addOutput"] = s.stub_output(lambda src, o: And(inputs.has(u), srcs.has(src), srcs.get(src).has(o)))
    recursive = s.stub_call(lambda x: And(eq(x.get("node").a, node.a), inner.has(u), isdep(I(x.get("id")))))

    def reached(E, x):
        ids = s.f("callId_")
        return And(ids.has(x), B(E.read(s.edges).get(ids.get(x))))
    goal_d = lambda E: reached(E, d0)
    goal_o = lambda E: reached(E, c0)

    def common(E):
        ids = s.f("callId_")
        return And(*s.inv(), ids.has(c), eq(ids.get(c), n0), Implies(had_x, And(ids.has(x0), eq(ids.get(x0), id_x))), lt(n0, s.f("calls_").n))

    def inv(E, st):
        din, oin = goal_d(E), goal_o(E)
        items = [("calls and identifiers", lambda E, k, L: common(E)), ("every call is listed", lambda E, k, L, j: s.listed(j), "all"),
                 ("edges kept", lambda E, k, L: And(Implies(din, goal_d(E)), Implies(oin, goal_o(E))))]
        rank = E.maploops[-1] if E.maploops else None
        if loops.calls(st, G + "::addCall"):
            items.append(("edges to the dependencies within the node", lambda E, k, L: Implies(And(le(0, kd), lt(kd, k)), goal_d(E))))
        elif loops.calls(st["body"], G + "::addOutput") and any_loop(st["body"], G + "::addOutput"):
            items.append(("edges to the outputs of the sources so far", lambda E, k, L: Implies(
                And(srcs.has(s0), lt(rank(s0), k), srcs.get(s0).has(o0), le(0, q0), lt(q0, s.num(s0, o0))), goal_o(E))))
        elif loops.calls(st["body"], G + "::addOutput"):
            src = source_of(E)
            items.append(("edges to the outputs of the source so far", lambda E, k, L: Implies(
                And(eq(src, s0.a), lt(rank(o0), k), srcs.get(s0).has(o0), le(0, q0), lt(q0, s.num(s0, o0))), goal_o(E))))
        else:
            src, o = E.read(s.last), E.read(s.lasto)
            items.append(("edges to the updates of the output so far", lambda E, k, L: Implies(
                And(eq(src, s0.a), eq(o, o0), le(0, q0), lt(q0, k)), goal_o(E))))
        return loops.Ind(*items)

    E.loopinv[G + "::addCall"] = inv
    E.stubs[G + "::addCall"] = recursive
    r = E.call(G + "::addCall", s.g, [E.local(c, CALL)])
    ids = s.f("callId_")
    E.prove("the identifier of the call", And(ids.has(c), eq(ids.get(c), r)))
    for l, x in zip(["as many nodes as calls"] + ["a known call has its place"] * 9, s.inv()):
        E.prove("after: " + l, x)
    E.prove("after: every call is listed under its identifier", s.listed(E.skolem("i")))
    E.prove("the calls known before keep their identifier", Implies(had_x, And(ids.has(x0), eq(ids.get(x0), id_x))))
    E.prove("known call: nothing is added", Implies(had, eq(s.f("calls_").n, n0)))
    E.prove("new call: after what it depends on in its node", Implies(And(Not(had), inner.has(u), le(0, kd), lt(kd, deps.n)), goal_d(E)))
    E.prove("new call: after the updates of the outputs it depends on", Implies(
        And(Not(had), inputs.has(u), srcs.has(s0), srcs.get(s0).has(o0), le(0, q0), lt(q0, s.num(s0, o0))), goal_o(E)))


def any_loop(x, name):
    if isinstance(x, list):
        return any(any_loop(y, name) for y in x)
    if not isinstance(x, dict):
        return False
    if x.get("k") in ("For", "ForRange", "While", "Do") and loops.calls(x, name):
        return True
    return any(any_loop(v, name) for v in x.values() if isinstance(v, (list, dict)))


@unit("CallGraph::addOutput", [G + "::addOutput"], limit=4000)
def add_output(E):
    s = Graph(E)
    node = E.obj(AN, "source")
    a = node.a
    o = E.input("output", E.fresh("int", "o"))
    isnode = B(E.fld(node, "is_node_"))
    deps, direct = E.fld(node, "outputDependencies_"), E.fld(node, "directDependencies_")
    d, fwd = deps.get(o), direct.get(o)
    f0, fo = fwd.get("first"), fwd.get("second")
    forward = And(isnode, Not(deps.has(o)), direct.has(o))
    # definition of what the output needs
    n = ite(And(isnode, deps.has(o)), d.n, ite(forward, s.num(f0, fo), 0))
    E.assume(eq(s.num(a, o), n))
    E.forall(lambda k: Implies(And(le(0, k), lt(k, n)), same(s.need(a, o, k), Struct(CALL, {
        "node": Ptr(ite(deps.has(o), a, s.need(f0, fo, k).get("node").a), AN), "id": ite(deps.has(o), d.get(k), s.need(f0, fo, k).get("id"))}))))
    E.assume(Implies(forward, And(ne(f0.a, 0), Not(And(eq(f0.a, a), eq(fo, o))))))
    E.fact(le(0, s.num(f0, fo)))
    # any other output: one known before
    a1, o1 = E.fresh("int", "a1"), E.fresh("int", "o1")
    q = E.skolem("q")
    s.key(s.need(a, o, q))
    s.key(s.need(a1, o1, q))
    x0 = s.key(call(E.sym(AN + " *", "other"), E.fresh("int", "otherUpdate")))
    had_x, id_x = B(s.f("callId_").has(x0)), s.f("callId_").get(x0)

    def cached(E, p, oo):
        """what was stored for an output is right"""
        v, ids = s.f("visited_"), s.f("callId_")
        w = v.get(p).get(oo)
        if not isinstance(w, Vec):
            w = Vec.of([], "int")
        c = s.need(p, oo, q)
        return Implies(And(v.has(p), v.get(p).has(oo)), And(eq(w.n, s.num(p, oo)), Implies(And(le(0, q), lt(q, w.n)), And(ids.has(c), eq(ids.get(c), w.get(q))))))
    pairs = [(a, o), (a1, o1)]
    for p in pairs:
        E.assume(cached(E, *p))
    grows = s.grows

    def grow(extra=()):
        for p in pairs:
            E.prove("recursive call, precondition: what is stored is right", cached(E, *p))
        grows(extra)
        for p in pairs:
            E.assume(cached(E, *p))
    s.grows = grow
    s.last, s.lasto = E.local(0), E.local(0)
    isdep = z3.Function("isdep", z3.IntSort(), z3.BoolSort())
    E.forall(lambda k: Implies(And(le(0, k), lt(k, d.n)), isdep(I(d.get(k)))))
    E.stubs[G + "::addCall"] = s.stub_call(lambda x: And(eq(x.get("node").a, a), isnode, deps.has(o), isdep(I(x.get("id")))))
    E.stubs[G + "::addOutput"] = s.stub_output(lambda src, oo: And(forward, eq(src.a, f0.a), eq(oo, fo)))
    res = lambda E: [E.read(l) for i, l in E.env.items() if i != "frame" and isinstance(l, LV) and isinstance(E.read(l), Vec) and l.root[0] == "l" and not l.path][0]

    def upto(E, k, j):
        ids = s.f("callId_")
        v = res(E)
        c = call(Ptr(a, AN), d.get(j))
        return Implies(And(le(0, j), lt(j, k)), And(ids.has(c), eq(ids.get(c), v.get(j) if isz(v.n) or v.n else 0)))
    E.loopinv[G + "::addOutput"] = loops.Ind(
        ("calls and identifiers", lambda E, k, L: And(*s.inv(), Implies(had_x, And(s.f("callId_").has(x0), eq(s.f("callId_").get(x0), id_x))))),
        ("every call is listed", lambda E, k, L, j: s.listed(j), "all"),
        ("what is stored is right", lambda E, k, L: And(*[cached(E, *p) for p in pairs])),
        ("one identifier per dependency so far", lambda E, k, L: And(eq(res(E).n, k), upto(E, k, q))))
    r = E.call(G + "::addOutput", s.g, [Ptr(a, AO), o])
    r = r if isinstance(r, Vec) else E.read(r)
    ids = s.f("callId_")
    c = s.need(a, o, q)
    E.prove("as many as the output needs", eq(r.n, s.num(a, o)))
    E.prove("the identifiers of the updates the output needs", Implies(And(le(0, q), lt(q, s.num(a, o))), And(ids.has(c), eq(ids.get(c), r.get(q) if isz(r.n) or r.n else 0))))
    for l, x in zip(["as many nodes as calls"] + ["a known call has its place"] * 9, s.inv()):
        E.prove("after: " + l, x)
    E.prove("after: every call is listed under its identifier", s.listed(E.skolem("i")))
    E.prove("the calls known before keep their identifier", Implies(had_x, And(ids.has(x0), eq(ids.get(x0), id_x))))
    for p in pairs:
        E.prove("after: what is stored is right", cached(E, *p))


@unit("CallGraph::add", [G + "::add"], limit=4000)
def add_inputs(E):
    """every requested output is added, nothing else, and the graph may be asked again afterwards"""
    s = Graph(E)
    ins = E.obj("tvm::graph::internal::Inputs", "inputs")
    req = E.fld(ins, "inputs_")
    s0, o0, q0 = E.sym(AO + " *", "source"), E.fresh("int", "output"), E.skolem("q")
    E.mapkeys += [s0, o0]
    c0 = s.key(s.need(s0, o0, q0))
    wanted = And(req.has(s0), req.get(s0).has(o0), le(0, q0), lt(q0, s.num(s0, o0)))
    s.last, s.lasto = E.local(0), E.local(0)
    E.stubs[G + "::addOutput"] = s.stub_output(lambda src, o: And(req.has(src), req.get(src).has(o)))
    there = lambda E: B(s.f("callId_").has(c0))

    def inv(E, st):
        before = there(E)
        rank = E.maploops[-1]
        items = [("calls and identifiers", lambda E, k, L: And(*s.inv())), ("every call is listed", lambda E, k, L, j: s.listed(j), "all"),
                 ("kept", lambda E, k, L: Implies(before, there(E)))]
        if any_loop(st["body"], G + "::addOutput"):
            items.append(("the outputs of the sources so far", lambda E, k, L: Implies(And(wanted, lt(rank(s0), k)), there(E))))
        else:
            src = source_of(E)
            items.append(("the outputs of the source so far", lambda E, k, L: Implies(And(wanted, eq(src, s0.a), lt(rank(o0), k)), there(E))))
        return loops.Ind(*items)
    E.loopinv[G + "::add"] = inv
    log = E.local(Struct("tvm::graph::internal::Logger", {}))
    E.stubs["tvm::graph::internal::Logger::logger"] = lambda E, this, a, fn: log
    E.stubs["tvm::graph::internal::Logger::addGraphOutput"] = lambda E, this, a, fn: None
    E.call(G + "::add", s.g, [E.local(Ptr(ins.a, "tvm::graph::internal::Inputs"))])
    E.prove("every update needed by the outputs requested is in the graph", Implies(wanted, there(E)))


def source_of(E):
    for i, l in E.env.items():
        if i == "frame":
            continue
        v = E.read(l) if isinstance(l, LV) else l
        if isinstance(v, Struct) and v.cls and v.cls.startswith("std::pair") and isinstance(v.get("first"), Ptr):
            return v.get("first").a
        if isinstance(v, Ptr) and isinstance(l, LV) and l.root[0] == "l" and v.cls == AO:
            return v.a
    raise Unsupported("source of the loop")
