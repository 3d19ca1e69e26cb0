"""C08: DependencyGraph. The depth-first ordering is verified with the real recursion cut by the contract of orderUtil;
an arbitrary pair of nodes (a, b), possibly related by an edge a -> b, is fixed throughout.

A node is "done" when it was visited and is not on the current path. The contract of orderUtil (for any graph, any
reachable state of the search) is
  pre   v is not visited; a node on the path was visited and reaches v; done nodes, and only they, are in the order, once;
        done(a) implies, when a -> b, done(b) with b before a
  post  the same about the nodes, v is done, the path is what it was, visited nodes stay so, new ones are v or no root
  throw only when an edge closes a cycle."""
import z3
from engine.run import unit
from values import *
from sym import ThrowX, AbortX
import interp
import loops

TUS = ["src/graph/DependencyGraph.cpp"]
DRIVER = "C08.cpp"
SOURCES = ["graph/DependencyGraph.cpp"]
DRIVER_S = 10
LEVEL = "proved"
DG = "tvm::graph::internal::DependencyGraph"
DS = DG + "::DisjointSet"


def one(E, name, nparams=None):
    c = [f for f in E.prog.byname.get(name, []) if nparams is None or len(f["params"]) == nparams]
    if len(c) != 1:
        raise Unsupported("function " + name)
    return c[0]


def truth(x):
    return x if (isz(x) and x.sort() == z3.BoolSort()) or isinstance(x, bool) else ne(x, 0)


class Ctx:
    pass


def graph(E):
    """an arbitrary graph, and an arbitrary pair of nodes"""
    c = Ctx()
    c.g = E.obj(DG, "g")
    c.ch, c.roots = E.fld(c.g, "children_"), E.fld(c.g, "roots_")
    c.n = E.input("nodes", c.ch.n)
    E.assume(eq(c.roots.n, c.n))
    c.a, c.b = E.input("a", E.skolem("a", "node")), E.input("b", E.skolem("b", "node"))
    E.assume(And(le(0, c.a), lt(c.a, c.n), le(0, c.b), lt(c.b, c.n)))
    c.e = E.input("a depends on b", E.fresh("bool", "edge"))
    kb = c.kb = E.skolem("kb", "iter")
    E.assume(Implies(c.e, And(le(0, kb), lt(kb, c.ch.get(c.a).n), eq(c.ch.get(c.a).get(kb), c.b))))
    c.reach = z3.Function("reach", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    c.cyc = E.fresh("bool", "cyclic")
    return c


def children(E, c, v):
    """class invariant about the children of v"""
    l = c.ch.get(v)
    E.forall(lambda k: Implies(And(le(0, k), lt(k, l.n)), And(
        le(0, l.get(k)), lt(l.get(k), c.n), Not(truth(c.roots.get(l.get(k)))),
        Implies(c.reach(I(l.get(k)), I(v)), c.cyc))), kind="iter")
    return l


def at(v, k):
    return truth(v.get(k))


def done(S, x):
    return And(at(S.vis, x), Not(at(S.stk, x)))


class St:
    """state of the search: visited, path, order, positions of a and b in the order, whether a and b were put together"""

    def __init__(self, order, vis, stk, pa, pb, joined=True):
        self.order, self.vis, self.stk, self.pa, self.pb, self.joined = order, vis, stk, pa, pb, joined


def sizes(c, S):
    return And(eq(S.vis.n, c.n), eq(S.stk.n, c.n))


def og(S, p):
    """element of the order (none when it is empty)"""
    n = simp(S.order.n)
    return -1 if not isz(n) and n == 0 else S.order.get(p)


def nodes_inv(c, S):
    def once(x, px):
        return Implies(done(S, x), And(le(0, px), lt(px, S.order.n), eq(og(S, px), x)))
    return And(once(c.a, S.pa), once(c.b, S.pb))


def order_inv(c, S, p):
    def u(x, px):
        return Implies(And(le(0, p), lt(p, S.order.n), eq(og(S, p), x)), And(done(S, x), eq(p, px)))
    return And(u(c.a, S.pa), u(c.b, S.pb))


def edge_inv(c, S):
    return Implies(And(c.e, done(S, c.a)), And(done(S, c.b), lt(S.pb, S.pa), S.joined))


def path_inv(c, S, u):
    return Implies(And(le(0, u), lt(u, c.n), at(S.stk, u)), at(S.vis, u))


def vec_t(E):
    f = one(E, DG + "::orderUtil")
    return [p["t"].replace("const ", "").replace("&", "").strip() for p in f["params"]]


def search_stub(E, c, ghosts, seen=None, strict=None):
    """the contract of orderUtil, as its callers see it; strict: the node at the end of the current path"""
    f = one(E, DG + "::orderUtil")
    ts = vec_t(E)

    def h(E, this, args, fn):
        i, lo, lv, ls = interp.load(E, args[0]), args[1], args[2], args[3]
        if seen is not None:
            seen[:] = [lo, lv, ls]
        S = St(E.read(lo), E.read(lv), E.read(ls), *[E.read(x) for x in ghosts])
        E.index(i, "node")
        u, p = E.skolem("u", "node"), E.skolem("p", "pos")
        E.prove("search called in a state it accepts: the node is new", And(
            le(0, i), lt(i, c.n), sizes(c, S), Not(at(S.vis, i))))
        E.prove("search called in a state it accepts: order", And(nodes_inv(c, S), order_inv(c, S, p), edge_inv(c, S)))
        if strict is not None:
            E.assume(Implies(c.reach(I(u), I(strict)), c.reach(I(u), I(i))))     # strict -> i is an edge
            E.prove("search called in a state it accepts: path", Implies(And(le(0, u), lt(u, c.n), at(S.stk, u)), And(
                at(S.vis, u), c.reach(I(u), I(i)))))
        else:
            E.prove("search called in a state it accepts: path", Implies(And(le(0, u), lt(u, c.n)), Not(at(S.stk, u))))
        if E.choose("cycle found"):
            E.assume(c.cyc)
            raise ThrowX("std::logic_error")
        k = E.fresh_id()
        T = St(E.sym(ts[1], "order!%d" % k), E.sym(ts[2], "visited!%d" % k), S.stk, E.fresh("int", "pa"), E.fresh("int", "pb"))
        E.assume(And(sizes(c, T), at(T.vis, i), nodes_inv(c, T), edge_inv(c, T)))
        E.forall(lambda q: order_inv(c, T, q), kind="pos")
        E.forall(lambda q: Implies(And(le(0, q), lt(q, c.n)), And(
            Implies(at(S.vis, q), at(T.vis, q)),
            Implies(And(at(T.vis, q), Not(at(S.vis, q))), Or(eq(q, i), Not(truth(c.roots.get(q))))))), kind="node")
        E.write(lo, T.order)
        E.write(lv, T.vis)
        E.write(ghosts[0], T.pa)
        E.write(ghosts[1], T.pb)
        j = E.fresh("bool", "joined")
        E.assume(And(Implies(S.joined, j), Implies(And(c.e, done(T, c.a)), j)))
        E.write(ghosts[2], j)
    E.stubs[f["key"]] = h
    E.stubs[DS + "::resize"] = lambda E, this, args, fn: None

    def unify(E, this, args, fn):
        x, y = interp.load(E, args[0]), interp.load(E, args[1])
        l = c.ch.get(x)
        E.prove("only nodes related by an edge are put together", Or(*[
            And(le(0, k), lt(k, l.n), eq(l.get(k), y)) for k in E.idxk.get("iter", [])]))
        E.write(ghosts[2], Or(B(E.read(ghosts[2])), And(eq(x, c.a), eq(y, c.b))))
    E.stubs[DS + "::unify"] = unify
    return f


@unit("DependencyGraph::orderUtil", [DG + "::orderUtil"])
def order_util(E):
    c = graph(E)
    ts = vec_t(E)
    v = E.input("v", E.skolem("v", "node"))
    lv = [E.local(E.sym(ts[k], nm)) for k, nm in ((1, "order"), (2, "visited"), (3, "stack"))]
    gh = [E.local(E.fresh("int", "pa")), E.local(E.fresh("int", "pb")), E.local(E.fresh("bool", "joined"))]

    def cur():
        return St(E.read(lv[0]), E.read(lv[1]), E.read(lv[2]), *[E.read(x) for x in gh])
    S = cur()
    E.assume(And(le(0, v), lt(v, c.n), sizes(c, S), Not(at(S.vis, v)), nodes_inv(c, S), edge_inv(c, S)))
    E.forall(lambda p: order_inv(c, S, p), kind="pos")
    E.forall(lambda u: And(path_inv(c, S, u), Implies(And(le(0, u), lt(u, c.n), at(S.stk, u)), c.reach(I(u), I(v)))), kind="node")
    E.assume(c.reach(I(v), I(v)))
    l = children(E, c, v)
    f = search_stub(E, c, gh, strict=v)
    comp = E.obj(DS, "components")
    own = lambda u: eq(u, v)

    def child(E, k, L):
        return Implies(And(c.e, eq(v, c.a), lt(c.kb, k)), And(done(cur(), c.b), cur().joined))

    def path(E, k, L, u):
        T = cur()
        return Implies(lt(u, c.n), And(
            truth(at(T.stk, u)) == B(Or(at(S.stk, u), own(u))), Implies(at(S.vis, u), at(T.vis, u)), path_inv(c, T, u),
            Implies(And(at(T.vis, u), Not(at(S.vis, u))), Or(eq(u, v), Not(truth(c.roots.get(u)))))))
    E.loopinv[DG + "::orderUtil"] = loops.Ind(
        ("sizes", lambda E, k, L: And(sizes(c, cur()), at(cur().vis, v)) if E.index(l.get(k), "node") is not None else 0),
        ("path", path, "all", "node"),
        ("a child treated is done", child),
        ("done nodes are in the order", lambda E, k, L: nodes_inv(c, cur())),
        ("only done nodes are in the order, once", lambda E, k, L, p: order_inv(c, cur(), p), "all", "pos"),
        ("a done node comes after those it depends on", lambda E, k, L: edge_inv(c, cur())))
    k, r = E.call_x(f["key"], c.g, [v, lv[0], lv[1], lv[2], E.deref(comp)])
    if k == "throw":
        E.prove("refused only because of a cycle", c.cyc)
        return
    E.prove("no failed assertion", k == "ret")
    T = cur()
    m = simp(sub(T.order.n, 1))
    E.index(m, "pos")
    T.pa, T.pb = ite(eq(v, c.a), m, T.pa), ite(eq(v, c.b), m, T.pb)
    u, p = E.skolem("u", "node"), E.skolem("p", "pos")
    E.prove("the node is done", done(T, v))
    E.prove("done nodes are in the order", nodes_inv(c, T))
    E.prove("only done nodes are in the order, once", order_inv(c, T, p))
    E.prove("a done node comes after those it depends on", edge_inv(c, T))
    E.prove("the path is what it was, visited nodes stay so and roots are not visited on the way", And(
        sizes(c, T), Implies(And(le(0, u), lt(u, c.n)), And(
            B(at(T.stk, u)) == B(at(S.stk, u)), Implies(at(S.vis, u), at(T.vis, u)), path_inv(c, T, u),
            Implies(And(at(T.vis, u), Not(at(S.vis, u))), Or(eq(u, v), Not(truth(c.roots.get(u)))))))))


@unit("DependencyGraph::order_", [DG + "::order_"])
def order_fn(E):
    c = graph(E)
    gh = [E.local(E.fresh("int", "pa")), E.local(E.fresh("int", "pb")), E.local(E.fresh("bool", "joined"))]
    seen = []
    search_stub(E, c, gh, seen)

    def cur():
        if not seen:
            raise Unsupported("order_ without search")
        return St(E.read(seen[0]), E.read(seen[1]), E.read(seen[2]), *[E.read(x) for x in gh])

    def flag(L):
        b = [x for x in L if isinstance(x, bool) or (isz(x) and x.sort() == z3.BoolSort())]
        if len(b) != 1:
            raise Unsupported("locals of order_")
        return b[0]

    def vis(E, k, L, u):
        T = cur()
        r = truth(c.roots.get(u))
        return Implies(lt(u, c.n), And(Not(at(T.stk, u)), Implies(And(lt(u, k), r), at(T.vis, u)),
                                       Implies(And(at(T.vis, u), r), lt(u, k)), Implies(And(lt(u, k), r), flag(L))))
    E.loopinv[DG + "::order_"] = loops.Ind(
        ("sizes", lambda E, k, L: sizes(c, cur()) if E.index(k, "node") is not None else 0),
        ("roots so far are done", vis, "all", "node"),
        ("done nodes are in the order", lambda E, k, L: nodes_inv(c, cur())),
        ("only done nodes are in the order, once", lambda E, k, L, p: order_inv(c, cur(), p), "all", "pos"),
        ("a done node comes after those it depends on", lambda E, k, L: edge_inv(c, cur())))
    r = z3.Function("rank", z3.IntSort(), z3.IntSort())
    k, ret = E.call_x(one(E, DG + "::order_")["key"], c.g, [])
    q = E.skolem("q", "node", "pos")
    if k == "throw":
        # in an acyclic graph there is a rank increasing along the edges; a node of minimal rank among the ones that
        # are not visited would exist, would not be a root, and would depend on nothing that is not visited
        T = cur()
        unv = Or(*[And(le(0, j), lt(j, c.n), Not(at(T.vis, j))) for j in list(E.idx)])
        E.prove("refused only because of a cycle", Or(
            c.cyc, And(ne(c.n, 0), Implies(And(le(0, q), lt(q, c.n)), Not(truth(c.roots.get(q))))),
            And(unv, Implies(And(le(0, q), lt(q, c.n), truth(c.roots.get(q))), at(T.vis, q)),
                Not(And(c.e, Not(at(T.vis, c.b)), lt(r(I(c.a)), r(I(c.b))),
                        Or(at(T.vis, c.a), le(r(I(c.b)), r(I(c.a)))))))))
        return
    E.prove("no failed assertion", k == "ret")
    o = E.fld(ret, "first")
    pa, pb = E.read(gh[0]), E.read(gh[1])
    E.prove("every node is in the order", And(le(0, pa), lt(pa, o.n), eq(o.get(pa), c.a)))
    E.prove("every node is in the order once", Implies(And(le(0, q), lt(q, o.n), eq(o.get(q), c.a)), eq(q, pa)))
    E.prove("nodes related by an edge are put together", Implies(c.e, E.read(gh[2])))
    E.prove("every node comes after all the nodes it depends on", Implies(c.e, And(lt(pb, pa), eq(o.get(pb), c.b))))


# ---------------------------------------------------------------- disjoint sets
RT = z3.Function("set_of", z3.IntSort(), z3.IntSort())


def ds(E, name="d"):
    """an arbitrary disjoint-set structure: every node has a representative, its own parent, and shares it with its parent"""
    p = E.obj(DS, name)
    v = [fr["name"] for c, fr in E.prog.fields(DS)]
    if len(v) != 2:
        raise Unsupported("representation of DisjointSet")
    return p, v[0], v[1]


def ds_ok(P, rt, i):
    return Implies(And(le(0, i), lt(i, P.n)), And(
        le(0, P.get(i)), lt(P.get(i), P.n), le(0, rt(i)), lt(rt(i), P.n), eq(rt(P.get(i)), rt(i)), eq(P.get(rt(i)), rt(i)),
        eq(rt(rt(i)), rt(i)), Implies(eq(P.get(i), i), eq(rt(i), i))))


def rt0(i):
    return RT(I(i))


def ds_pre(E, P, *xs):
    for x in xs:
        E.assume(And(le(0, x), lt(x, P.n)))
    E.forall(lambda i: ds_ok(P, rt0, i), kind="ds")
    for x in xs:
        dsi(E, x, P.get(x), rt0(x))


def dsi(E, *xs):
    for x in xs:
        E.index(x, "ds")


@unit("DisjointSet::root", [DS + "::root"])
def ds_root(E):
    d, fp, fr = ds(E)
    P = E.fld(d, fp)
    x = E.input("node", E.skolem("x"))
    ds_pre(E, P, x)
    f = one(E, DS + "::root")

    def h(E, this, args, fn):
        i = interp.load(E, args[0])
        E.prove("asked for a node of the set", And(le(0, i), lt(i, P.n)))
        return rt0(i)
    E.stubs[f["key"]] = h
    k, r = E.call_x(f["key"], d, [x])
    E.prove("the representative of the node is given", And(k == "ret", eq(r, rt0(x)) if k == "ret" else False))


def compr_stub(E, fp):
    f = one(E, DS + "::rootCompr")

    def h(E, this, args, fn):
        i = interp.load(E, args[0])
        p = interp.load(E, this).get(fp) if not isinstance(this, Ptr) else E.fld(this, fp)
        E.prove("asked for a node of the set", And(le(0, i), lt(i, p.n)))
        q = E.skolem("q", "ds")
        E.prove("called on a consistent structure", ds_ok(p, rt0, q))
        N = E.sym("std::vector<unsigned long>", "parent!%d" % E.fresh_id())
        E.assume(eq(N.n, p.n))
        E.forall(lambda j: ds_ok(N, rt0, j), kind="ds")
        dsi(E, i, rt0(i))
        E.write(this.step("f", fp, DS) if not isinstance(this, Ptr) else E.fld_lv(this, fp), N)
        return rt0(i)
    E.stubs[f["key"]] = h
    return f


@unit("DisjointSet::rootCompr", [DS + "::rootCompr"])
def ds_compr(E):
    d, fp, fr = ds(E)
    P = E.fld(d, fp)
    x = E.input("node", E.skolem("x"))
    ds_pre(E, P, x)
    f = compr_stub(E, fp)
    k, r = E.call_x(f["key"], d, [x])
    N = E.fld(d, fp)
    i = E.skolem("i")
    dsi(E, i, N.get(i), rt0(i))
    E.prove("the representative of the node is given", And(k == "ret", eq(r, rt0(x)) if k == "ret" else False))
    E.prove("compressing the paths does not change the sets", And(eq(N.n, P.n), ds_ok(N, rt0, i)))


@unit("DisjointSet::unify", [DS + "::unify"])
def ds_unify(E):
    d, fp, fr = ds(E)
    P = E.fld(d, fp)
    E.assume(eq(E.fld(d, fr).n, P.n))
    x, y = E.input("node1", E.skolem("x")), E.input("node2", E.skolem("y"))
    ds_pre(E, P, x, y)
    compr_stub(E, fp)
    k, r = E.call_x(one(E, DS + "::unify")["key"], d, [x, y])
    E.prove("no failure", k == "ret")
    N = E.fld(d, fp)
    new = ite(eq(N.get(rt0(x)), rt0(x)), rt0(x), rt0(y))

    def rt(i):
        return ite(Or(eq(rt0(i), rt0(x)), eq(rt0(i), rt0(y))), new, rt0(i))
    i = E.skolem("i")
    dsi(E, i, N.get(i), rt0(i))
    E.prove("the two sets, and no other, become one", And(eq(N.n, P.n), ds_ok(N, rt, i)))
    E.prove("the nodes are in the same set", eq(rt(x), rt(y)))


@unit("DisjointSet::isRoot", [DS + "::isRoot"])
def ds_isroot(E):
    d, fp, fr = ds(E)
    P = E.fld(d, fp)
    x = E.input("node", E.skolem("x"))
    ds_pre(E, P, x)
    k, r = E.call_x(one(E, DS + "::isRoot")["key"], d, [x])
    E.prove("a node is a root when it represents its set", And(k == "ret", eq(B(r), eq(rt0(x), x)) if k == "ret" else False))


@unit("DisjointSet::resize", [DS + "::resize"])
def ds_resize(E):
    d, fp, fr = ds(E)
    n = E.input("n", E.sym("unsigned long", "n"))
    E.call(DS + "::resize", d, [n])
    P, i = E.fld(d, fp), E.skolem("i")
    E.prove("every node is alone in its set", And(eq(P.n, n), eq(E.fld(d, fr).n, n), ds_ok(P, lambda k: k, i)))


@unit("DependencyGraph::groupedOrder", [DG + "::groupedOrder"])
def grouped(E):
    """given the contract of order_: a is anywhere in the order, once; b likewise, before a if a -> b, and then in the same set"""
    c = graph(E)
    f = one(E, DG + "::order_")
    pa, pb = E.fresh("int", "pa"), E.fresh("int", "pb")
    O = E.sym("std::vector<unsigned long>", "order")
    d, fp, fr = ds(E, "sets")
    P = E.fld(d, fp)
    E.assume(eq(P.n, c.n))
    E.forall(lambda i: ds_ok(P, rt0, i), kind="ds")
    E.forall(lambda p: Implies(And(le(0, p), lt(p, O.n)), And(
        le(0, O.get(p)), lt(O.get(p), c.n), Implies(eq(O.get(p), c.a), eq(p, pa)), Implies(eq(O.get(p), c.b), eq(p, pb)))),
        kind="iter")
    E.assume(And(le(0, pa), lt(pa, O.n), eq(O.get(pa), c.a), le(0, pb), lt(pb, O.n), eq(O.get(pb), c.b),
                 Implies(c.e, And(lt(pb, pa), eq(rt0(c.a), rt0(c.b))))))
    ra, rb = rt0(c.a), rt0(c.b)
    dsi(E, c.a, c.b, ra, rb)

    def order(E, this, args, fn):
        if E.choose("cycle"):
            raise ThrowX("std::logic_error")
        st = E.read(E.deref(d))
        return Struct(fn.get("ret", "std::pair<std::vector<unsigned long>, %s>" % DS), {"first": O, "second": st})
    E.stubs[f["key"]] = order
    cells = {}

    def locals_(E):
        """the containers built by the function: groups and numbers of the groups, found by their types"""
        out = {}
        for i, lv in E.env.items():
            if i == "frame" or not isinstance(lv, LV) or lv.path:
                continue
            v = E.store.get(lv.root)
            if isinstance(v, Vec) and v.et:
                out.setdefault("groups" if v.et.startswith("std::vector") else "map", []).append(v)
        if any(len(x) != 1 for x in out.values()) or len(out) != 2:
            raise Unsupported("locals of groupedOrder")
        return out["groups"][0], out["map"][0]
    def root(E, this, args, fn):
        x = interp.load(E, args[0])
        dsi(E, x, rt0(x))
        E.prove("asked for a node of the sets", And(le(0, x), lt(x, P.n)))
        return rt0(x)
    E.stubs[one(E, DS + "::root")["key"]] = root
    E.stubs[one(E, DS + "::isRoot")["key"]] = lambda E, this, args, fn: eq(rt0(interp.load(E, args[0])), interp.load(E, args[0]))
    gs, ps = E.skolem("group"), E.skolem("position")
    wa, wb = E.fresh("int", "wa"), E.fresh("int", "wb")

    def iteration(E, k):
        E.index(k, "iter")
        x = O.get(k)
        dsi(E, x, rt0(x))

    def num(E, k, L):
        """numbering of the groups: k nodes treated"""
        G, M = locals_(E)

        def ok(r):
            return Implies(lt(r, k), And(le(0, M.get(r)), lt(M.get(r), G.n)))
        return And(eq(M.n, c.n), le(0, G.n), ok(ra), ok(rb), Implies(And(lt(ra, k), lt(rb, k), ne(ra, rb)), ne(M.get(ra), M.get(rb))))

    def empty(E, k, L, g):
        G, M = locals_(E)
        if not isz(simp(G.n)) and simp(G.n) == 0:
            return True
        return Implies(lt(g, G.n), eq(G.get(g).n, 0))

    def roots(E, k, L, r):
        G, M = locals_(E)
        return Implies(And(lt(r, k), lt(r, c.n), eq(rt0(r), r)), And(le(0, M.get(r)), lt(M.get(r), G.n)))
    first = loops.Ind(("groups are numbered, different ones differently", num), ("groups are empty", empty, "all", "group"),
                      ("the roots so far have a group", roots, "all", "ds"))
    def fill(E, k, L):
        """k nodes of the order treated"""
        iteration(E, k)
        G, M = locals_(E)
        ga, gb = M.get(ra), M.get(rb)
        E.index(ga, "group"), E.index(gb, "group"), E.index(gs, "group")
        cells["ga"], cells["gb"] = ga, gb

        def there(x, px, g, w):
            return Implies(lt(px, k), And(le(0, w), lt(w, G.get(g).n), eq(G.get(g).get(w), x)))

        def alone(x, px, g, w):
            return Implies(And(le(0, gs), lt(gs, G.n), le(0, ps), lt(ps, G.get(gs).n), eq(G.get(gs).get(ps), x)),
                           And(lt(px, k), eq(gs, g), eq(ps, w)))
        return And(num(E, c.n, L), le(0, G.get(ga).n), le(0, G.get(gb).n), Implies(And(le(0, gs), lt(gs, G.n)), le(0, G.get(gs).n)),
                   there(c.a, pa, ga, wa), there(c.b, pb, gb, wb), alone(c.a, pa, ga, wa), alone(c.b, pb, gb, wb),
                   Implies(And(lt(pa, k), lt(pb, pa), eq(ra, rb)), lt(wb, wa)))

    def range_(E, k, L, r):
        return roots(E, c.n, L, r)

    def position(x, px, r, w):
        return lambda E, k, L: Implies(eq(px, k), eq(w, locals_(E)[0].get(locals_(E)[1].get(r)).n))
    second = loops.Ind(("the nodes so far are in their group, once, in order", fill), ("roots have a group", range_, "all", "ds"),
                       defs=(position(c.a, pa, ra, wa), position(c.b, pb, rb, wb)))
    E.loopinv[DG + "::groupedOrder"] = [first, second]
    k, G = E.call_x(one(E, DG + "::groupedOrder")["key"], c.g, [])
    if k == "throw":
        return
    E.prove("no failed assertion", k == "ret")
    if not cells:
        raise Unsupported("groupedOrder does not fill the groups in a loop")
    ga, gb = cells["ga"], cells["gb"]
    at_ = lambda x, g, w: And(le(0, g), lt(g, G.n), le(0, w), lt(w, G.get(g).n), eq(G.get(g).get(w), x))
    E.prove("every node is in a group", at_(c.a, ga, wa))
    E.prove("every node is in the groups once", Implies(at_(c.a, gs, ps), And(eq(gs, ga), eq(ps, wa))))
    E.prove("two nodes are in the same group exactly when they were put together", eq(B(eq(ga, gb)), B(eq(ra, rb))))
    E.prove("in its group every node comes after all the nodes it depends on", Implies(c.e, And(
        eq(ga, gb), lt(wb, wa), at_(c.b, gb, wb))))


# ---------------------------------------------------------------- construction of the graph
KB = z3.Function("rank_of_child", z3.IntSort(), z3.IntSort(), z3.IntSort())
WI = z3.Function("a_parent", z3.IntSort(), z3.IntSort())


def edge(E, g, x, y):
    ed = E.fld(g, "edges_")
    return ed.has(Struct(ed.kt, {"first": x, "second": y}))


def child_inv(E, g, i, k):
    ch, ro = E.fld(g, "children_"), E.fld(g, "roots_")
    l = ch.get(i)
    return Implies(And(le(0, i), lt(i, ch.n), le(0, k), lt(k, l.n)), And(
        le(0, l.get(k)), lt(l.get(k), ch.n), Not(truth(ro.get(l.get(k)))), edge(E, g, i, l.get(k))))


def edge_in(E, g, x, y, kb):
    ch = E.fld(g, "children_")
    return Implies(edge(E, g, x, y), And(le(0, x), lt(x, ch.n), le(0, y), lt(y, ch.n), le(0, kb), lt(kb, ch.get(x).n),
                                         eq(ch.get(x).get(kb), y)))


def root_inv(E, g, i, w):
    ro = E.fld(g, "roots_")
    return Implies(And(le(0, i), lt(i, ro.n), Not(truth(ro.get(i)))), edge(E, g, w, i))


@unit("DependencyGraph::addNode", [DG + "::addNode"])
def add_node(E):
    g = E.obj(DG, "g")
    ch0, ro0 = E.fld(g, "children_"), E.fld(g, "roots_")
    E.assume(eq(ch0.n, ro0.n))
    x, y, i, k = E.skolem("x"), E.skolem("y"), E.skolem("i"), E.skolem("k")
    E.assume(And(child_inv(E, g, i, k), edge_in(E, g, x, y, KB(x, y)), root_inv(E, g, i, WI(i))))
    old = edge(E, g, x, y)
    r = E.call(DG + "::addNode", g, [])
    ch, ro = E.fld(g, "children_"), E.fld(g, "roots_")
    E.prove("one more node", And(eq(ch.n, add(ch0.n, 1)), eq(ro.n, ch.n), eq(r, ch0.n)))
    E.prove("the new node has no dependency and nobody depends on it", And(truth(ro.get(r)), eq(ch.get(r).n, 0)))
    E.prove("the edges are unchanged", eq(B(edge(E, g, x, y)), B(old)))
    E.prove("the graph stays consistent", And(child_inv(E, g, i, k), edge_in(E, g, x, y, KB(x, y)), root_inv(E, g, i, WI(i))))


@unit("DependencyGraph::addEdge", [DG + "::addEdge"])
def add_edge(E):
    g = E.obj(DG, "g")
    ch0, ro0 = E.fld(g, "children_"), E.fld(g, "roots_")
    E.assume(eq(ch0.n, ro0.n))
    f, t = E.input("from", E.skolem("from")), E.input("to", E.skolem("to"))
    E.assume(And(le(0, f), lt(f, ch0.n), le(0, t), lt(t, ch0.n)))
    x, y, i, k = E.skolem("x"), E.skolem("y"), E.skolem("i"), E.skolem("k")
    E.assume(And(child_inv(E, g, i, k), edge_in(E, g, x, y, KB(x, y)), root_inv(E, g, i, WI(i)), edge_in(E, g, f, t, KB(f, t)),
                 root_inv(E, g, t, WI(t))))
    E.assume(child_inv(E, g, f, k))
    old, was, nf = edge(E, g, x, y), edge(E, g, f, t), ch0.get(f).n
    kind, r = E.call_x(DG + "::addEdge", g, [f, t])
    E.prove("accepted", kind == "ret")
    ch, ro = E.fld(g, "children_"), E.fld(g, "roots_")
    E.prove("the number of nodes is unchanged", And(eq(ch.n, ch0.n), eq(ro.n, ch0.n)))
    E.prove("tells whether the edge is new", eq(B(r), Not(was)))
    E.prove("the edge, and no other, is added", eq(B(edge(E, g, x, y)), B(Or(old, And(eq(x, f), eq(y, t))))))
    kb = ite(And(eq(x, f), eq(y, t), Not(was)), nf, KB(x, y))
    E.prove("the graph stays consistent: children", child_inv(E, g, i, k))
    E.prove("the graph stays consistent: edges", edge_in(E, g, x, y, kb))
    E.prove("the graph stays consistent: roots", root_inv(E, g, i, ite(eq(i, t), f, WI(i))))


@unit("DependencyGraph::clear", [DG + "::clear", DG + "::size", DG + "::edges"])
def clear_(E):
    g = E.obj(DG, "g")
    E.assume(eq(E.fld(g, "children_").n, E.fld(g, "roots_").n))
    E.prove("the size is the number of nodes", eq(E.call(DG + "::size", g, []), E.fld(g, "roots_").n))
    E.call(DG + "::clear", g, [])
    x, y = E.skolem("x"), E.skolem("y")
    E.prove("nothing is left", And(eq(E.fld(g, "children_").n, 0), eq(E.fld(g, "roots_").n, 0), Not(edge(E, g, x, y))))
    E.prove("the size is zero", eq(E.call(DG + "::size", g, []), 0))


BOUNDED = [
    "removeNode, reduce and SCCUtil (strongly connected components): compared with a model on all graphs of up to 3 nodes, "
    "graphs of 4 nodes, random graphs of up to 12 nodes and random histories of additions, removals and clearings"]
ASSUMPTIONS = [
    "lemmas not discharged by the solver: an edge u -> v with v reaching u is a cycle; in an acyclic graph some rank increases "
    "along the edges, and a non-empty set of nodes has one of minimal rank",
    "the search terminates (partial correctness); recursion is cut by the contract of the function itself"]
