"""C05: VariableVector. Representation invariant (REP) over the members, in order, and over every other variable that
caches a slot; each operation is verified to preserve it for any number of members, and the observers to answer from it.
Variable::contains and Variable::intersects are used through the contract C04 establishes for them."""
from engine.run import unit
from values import *
import loops

TUS = ["src/VariableVector.cpp", "src/Variable.cpp"]
DRIVER = "C05.cpp"
DRIVER_FLAGS = ["-fsanitize=address"]
SOURCES = ["Space.cpp", "Variable.cpp", "VariableVector.cpp", "internal/ObjWithId.cpp"]
DRIVER_S = 8
BOUNDED = "random histories of up to 30 operations over up to 3 vectors sharing the variables, sub-variables and derivatives of " \
          "up to 3 families (reference: list of segments), under the address sanitizer"
ASSUMPTIONS = ["variables have at least one element", "a vector that was moved from is not used again"]
TRUSTED = ["Variable::contains and intersects hold exactly for nested / overlapping segments of one value buffer (contract "
           "established by C04)",
           "identifiers of vectors are never reused (established by C22)"]
BUDGET = 100
VV = "tvm::VariableVector"
V = "tvm::Variable"


def var(E, vv, k):
    return E.fld(vv, "variables_").get(k)


def num(E, vv):
    return E.fld(vv, "variables_").n


def seg(E, v):
    m = E.fld(v, "value_")
    return m.arr, m.off, m.r


def size(E, v):
    return E.fld(v, "value_").r


def cont(E, x, y):
    (ax, ox, nx), (ay, oy, ny) = seg(E, x), seg(E, y)
    return And(eq(ax, ay), le(ox, oy), le(add(oy, ny), add(ox, nx)))


def inter(E, x, y):
    (ax, ox, nx), (ay, oy, ny) = seg(E, x), seg(E, y)
    return And(eq(ax, ay), lt(ox, add(oy, ny)), lt(oy, add(ox, nx)))


def ident(E, vv):
    return E.fld(vv, "id_")


def has(E, vv, v):
    return E.fld(v, "startIn_").has(ident(E, vv))


def slot(E, vv, v):
    return E.fld(v, "startIn_").get(ident(E, vv))


def start(E, vv, v):
    return slot(E, vv, v).get("start")


def counter(E):
    return E.globals_[("g", VV + "::counter")]


def elem(E, vv, i):
    """facts about member i"""
    n = num(E, vv)
    if not isz(n) and n == 0:
        return True
    v = var(E, vv, i)
    nx = simp(add(i, 1))
    w = var(E, vv, nx)
    return Implies(And(le(0, i), lt(i, n)), And(
        ne(v.a, 0), lt(0, size(E, v)), has(E, vv, v), le(0, start(E, vv, v)),
        le(add(start(E, vv, v), size(E, v)), E.fld(vv, "size_")),
        Implies(eq(i, 0), eq(start(E, vv, v), 0)),
        Implies(lt(nx, n), eq(start(E, vv, w), add(start(E, vv, v), size(E, v)))),
        Implies(eq(nx, n), eq(E.fld(vv, "size_"), add(start(E, vv, v), size(E, v))))))


def pair(E, vv, i, j):
    n = num(E, vv)
    if not isz(n) and n == 0:
        return True
    v, w = var(E, vv, i), var(E, vv, j)
    return Implies(And(le(0, i), lt(i, j), lt(j, n)), And(
        Not(inter(E, v, w)), ne(v.a, w.a), le(add(start(E, vv, v), size(E, v)), start(E, vv, w))))


def whole(E, vv):
    return And(Implies(eq(num(E, vv), 0), eq(E.fld(vv, "size_"), 0)), lt(E.fld(vv, "stamp_"), counter(E)), le(0, counter(E)),
               le(0, E.fld(vv, "stamp_")))


def cached(E, vv, q, m):
    """variable q, not a member: a slot it remembers is either outdated or right (member m contains it)"""
    s = slot(E, vv, q)
    if not isz(num(E, vv)) and num(E, vv) == 0:
        return Implies(has(E, vv, q), And(le(0, s.get("stamp")), lt(s.get("stamp"), counter(E)),
                                          ne(s.get("stamp"), E.fld(vv, "stamp_"))))
    v = var(E, vv, m)
    return Implies(has(E, vv, q), And(
        le(0, s.get("stamp")), lt(s.get("stamp"), counter(E)),
        Implies(eq(s.get("stamp"), E.fld(vv, "stamp_")), And(
            le(0, m), lt(m, num(E, vv)), cont(E, v, q),
            eq(s.get("start"), add(start(E, vv, v), sub(seg(E, q)[1], seg(E, v)[1])))))))


def frozen(E, fn):
    st = E.save()
    return lambda *a: loops.at_state(E, st, lambda: fn(*a))


class Ctx:
    pass


def tcall(E, *a):
    """(value, None) or (None, exception)"""
    k, r = E.call_x(*a)
    return (r, None) if k == "ret" else (None, r)


def setup(E):
    """an arbitrary vector satisfying REP, an arbitrary further variable q, another vector's identifier"""
    c = Ctx()
    E.globals_[("g", VV + "::counter")] = E.fresh("int", "counter")
    c.vv = vv = E.obj(VV, "vec")
    E.input("number of variables", num(E, vv))
    E.assume(whole(E, vv))
    E.forall(loops.template(E, lambda i: elem(E, vv, i), 1))
    E.pairfacts.append(loops.template(E, lambda i, j: pair(E, vv, i, j), 2))
    E.index(0)
    E.index(simp(sub(num(E, vv), 1)))
    c.q = q = E.obj(V, "q")
    E.assume(lt(0, size(E, q)))
    c.mq = E.fresh("int", "mq")     # index of the member containing q when its cached slot is current
    E.index(c.mq)
    c.qmem = E.fresh("bool", "q is a member")
    E.forall(loops.template(E, lambda i: Implies(And(le(0, i), lt(i, num(E, vv)), Not(c.qmem)), ne(var(E, vv, i).a, q.a)), 1))
    E.assume(Implies(Not(c.qmem), cached(E, vv, q, c.mq)))
    E.assume(Implies(c.qmem, And(le(0, c.mq), lt(c.mq, num(E, vv)), eq(var(E, vv, c.mq).a, q.a))))
    # another vector: whatever its members remember must not change
    c.other = E.fresh("int", "other")
    E.assume(ne(c.other, ident(E, vv)))
    c.o0 = (E.fld(q, "startIn_").has(c.other), E.fld(q, "startIn_").get(c.other))
    E.stubs[V + "::contains"] = lambda E, this, args, fn: cont(E, P(E, this), P(E, args[0]))
    E.stubs[V + "::intersects"] = lambda E, this, args, fn: inter(E, P(E, this), P(E, args[0]))
    return c


def P(E, lv):
    return lv if isinstance(lv, Ptr) else E.mkptr(lv, V)


def post(E, c, qmember=None, rep=True):
    vv, q = c.vv, c.q
    E.prove("the total size and the stamp are consistent", whole(E, vv))
    i, j = E.skolem("i"), E.skolem("j")
    E.index(simp(add(i, 1)))
    E.prove("each member has the slot following the previous one's", elem(E, vv, i))
    E.prove("members are pairwise disjoint and so are their slots", pair(E, vv, i, j))
    qm = E.fresh("bool", "qm") if qmember is None else qmember
    E.prove("a slot remembered by another variable is outdated or right", Or(qm, cached(E, vv, q, c.mq)))
    h, s = E.fld(q, "startIn_").has(c.other), E.fld(q, "startIn_").get(c.other)
    E.prove("what variables remember for other vectors is unchanged", And(
        eq(h, c.o0[0]), Implies(h, And(eq(s.get("start"), c.o0[1].get("start")), eq(s.get("stamp"), c.o0[1].get("stamp"))))))


def snapshot(E, c):
    return frozen(E, lambda k: var(E, c.vv, k)), num(E, c.vv), E.fld(c.vv, "size_")


def fn(E, name, param):
    f = [f for f in E.prog.byname.get(VV + "::" + name, []) if len(f["params"]) == 1 and param(f["params"][0]["t"])]
    if len(f) != 1:
        raise Unsupported(name)
    return f[0]


def unchanged(E, c, old):
    v0, n0, s0 = old
    k = E.skolem("k")
    E.prove("nothing changes", And(eq(num(E, c.vv), n0), eq(E.fld(c.vv, "size_"), s0),
                                   Implies(And(le(0, k), lt(k, n0)), eq(var(E, c.vv, k).a, v0(k).a))))


def shares(E, w, v0, n0, rel, k):
    return And(le(0, k), lt(k, n0), rel(E, v0(k), w))


@unit("VariableVector::add(VariablePtr)", [VV + "::add", VV + "::add_", VV + "::contains"])
def add_var(E):
    c = setup(E)
    w = E.obj(V, "v")
    E.assume(lt(0, size(E, w)))
    old = snapshot(E, c)
    v0, n0, s0 = old
    r, t = tcall(E, fn(E, "add", lambda t: t.startswith("std::shared_ptr"))["key"], c.vv, [w])
    k = E.skolem("m")
    if t is not None:
        E.prove("refused only when it partly overlaps a member",
                Not(And(le(0, k), lt(k, n0), cont(E, v0(k), w))))
        unchanged(E, c, old)
        m = exists_member(E, v0, n0, lambda v: inter(E, v, w))
        E.prove("refused only when it overlaps a member", m)
        return
    if E.branch(B(r)):
        E.prove("added only when disjoint from every member", Not(shares(E, w, v0, n0, inter, k)))
        E.prove("the variable comes last, with the slot following the others", And(
            eq(num(E, c.vv), add(n0, 1)), eq(var(E, c.vv, n0).a, w.a), eq(E.fld(c.vv, "size_"), add(s0, size(E, w))),
            eq(start(E, c.vv, w), s0), Implies(And(le(0, k), lt(k, n0)), eq(var(E, c.vv, k).a, v0(k).a))))
        post(E, c, Or(c.qmem, eq(c.q.a, w.a)))
    else:
        unchanged(E, c, old)
        E.prove("not added only when already covered", exists_member(E, v0, n0, lambda v: cont(E, v, w)))
        post(E, c, c.qmem)


def exists_member(E, v0, n0, p):
    """some index known on this path satisfies p"""
    return Or(*[And(le(0, k), lt(k, n0), p(v0(k))) for k in list(E.idx)])


@unit("VariableVector::addAndGetIndex", [VV + "::addAndGetIndex", VV + "::add_"])
def add_idx(E):
    c = setup(E)
    w = E.obj(V, "v")
    E.assume(lt(0, size(E, w)))
    ci = E.sym("bool", "containingIndex")
    old = snapshot(E, c)
    v0, n0, s0 = old
    r, t = tcall(E, VV + "::addAndGetIndex", c.vv, [w, ci])
    k = E.skolem("m")
    same = lambda v: And(cont(E, v, w), cont(E, w, v))
    if t is not None:
        E.prove("refused only when it partly overlaps a member", Not(And(le(0, k), lt(k, n0), cont(E, v0(k), w))))
        unchanged(E, c, old)
        return
    if E.may(ne(num(E, c.vv), n0)):
        E.prove("the new index is the last", And(eq(r, n0), eq(num(E, c.vv), add(n0, 1)), eq(var(E, c.vv, n0).a, w.a)))
        E.prove("added only when disjoint from every member", Not(shares(E, w, v0, n0, inter, k)))
        post(E, c, Or(c.qmem, eq(c.q.a, w.a)))
    else:
        unchanged(E, c, old)
        E.index(r)
        E.prove("the index is that of the member that is (or contains) the variable", Or(
            And(le(0, r), lt(r, n0), same(v0(r))),
            And(eq(r, -1), Not(ci), exists_member(E, v0, n0, lambda v: And(cont(E, v, w), Not(same(v))))),
            And(ci, le(0, r), lt(r, n0), cont(E, v0(r), w))))
        post(E, c, c.qmem)


def rm_inv(E, c, vv, p):
    """loop of remove_: the slots of the members after p are shifted one by one"""
    v0, n0, s0 = snapshot(E, c)
    old = frozen(E, lambda k: start(E, vv, var(E, vv, k)))
    si = size(E, v0(p))
    q = c.q
    oh, os = E.fld(q, "startIn_").has(ident(E, vv)), slot(E, vv, q)

    def sl(E, k, L, j):
        v = v0(j)
        s = E.fld(v, "startIn_")
        i = ident(E, vv)
        return Implies(lt(j, n0), And(s.has(i), eq(
            s.get(i).get("start"), sub(old(j), ite(And(lt(p, j), le(j, add(p, k))), si, 0)))))

    def frame(E, k, L):
        s = E.fld(q, "startIn_")
        i = ident(E, vv)
        return And(eq(s.has(c.other), c.o0[0]), eq(s.get(c.other).get("start"), c.o0[1].get("start")),
                   eq(s.get(c.other).get("stamp"), c.o0[1].get("stamp")),
                   Implies(Not(c.qmem), And(eq(s.has(i), oh), eq(s.get(i).get("start"), os.get("start")),
                                            eq(s.get(i).get("stamp"), os.get("stamp")))))
    return loops.Ind(("slots shifted so far", sl, "all"), ("the rest is untouched", frame))


def removed(E, c, old, p):
    v0, n0, s0 = old
    k = E.skolem("k")
    E.prove("exactly that variable is removed, the others keep their order", And(
        le(0, p), lt(p, n0), eq(num(E, c.vv), sub(n0, 1)), eq(E.fld(c.vv, "size_"), sub(s0, size(E, v0(p)))),
        Implies(And(le(0, k), lt(k, n0), lt(k, p)), eq(var(E, c.vv, k).a, v0(k).a)),
        Implies(And(le(p, k), lt(k, sub(n0, 1))), eq(var(E, c.vv, k).a, v0(simp(add(k, 1))).a))))
    E.prove("the removed variable forgets its slot", Not(has(E, c.vv, v0(p))))
    i, j = E.skolem("i"), E.skolem("j")
    for x in (i, j):
        E.index(simp(add(x, 1)))
        E.index(simp(add(x, 2)))
    E.prove("the total size and the stamp are consistent", whole(E, c.vv))
    E.prove("each member has the slot following the previous one's", elem(E, c.vv, i))
    E.prove("members are pairwise disjoint and so are their slots", pair(E, c.vv, i, j))
    post(E, c, And(c.qmem, ne(c.q.a, v0(p).a)))


@unit("VariableVector::remove(int)", [VV + "::remove", VV + "::remove_"])
def rm_int(E):
    c = setup(E)
    p = E.input("index", E.sym("int", "p"))
    old = snapshot(E, c)
    E.index(p)
    E.loopinv[VV + "::remove_"] = rm_inv(E, c, c.vv, p)
    r, t = tcall(E, fn(E, "remove", lambda t: t == "int")["key"], c.vv, [p])
    ok = And(le(0, p), lt(p, old[1]))
    if t is not None:
        E.prove("refused exactly when out of range", Not(ok))
        unchanged(E, c, old)
        return
    E.prove("refused exactly when out of range", ok)
    removed(E, c, old, p)


@unit("VariableVector::remove(Variable)", [VV + "::remove", VV + "::remove_"])
def rm_var(E):
    c = setup(E)
    w = E.obj(V, "v")
    E.assume(lt(0, size(E, w)))
    old = snapshot(E, c)
    v0, n0, s0 = old
    p = E.fresh("int", "p")
    E.index(p)
    called = []

    def rm(E, this, args, f):
        called.append(args[0].k)
        return None
    E.stubs[VV + "::remove_"] = rm
    r = E.call(fn(E, "remove", lambda t: "Variable" in t)["key"], c.vv, [E.deref(w)])
    k = E.skolem("m")
    same = lambda v: And(cont(E, v, w), cont(E, w, v))
    if called:
        E.prove("reports the removal", B(r))
        E.prove("the removed member is the variable", And(le(0, called[0]), lt(called[0], n0), same(v0(called[0]))))
    else:
        E.prove("reports that nothing is removed", Not(B(r)))
        E.prove("not removed only when absent", Not(And(le(0, k), lt(k, n0), same(v0(k)))))
        unchanged(E, c, old)


@unit("VariableVector::clear", [VV + "::clear"])
def clear(E):
    c = setup(E)
    vv, q = c.vv, c.q
    v0, n0, s0 = snapshot(E, c)
    oh, os = has(E, vv, q), slot(E, vv, q)
    i = ident(E, vv)

    def er(E, k, L, j):
        return Implies(And(lt(j, k), lt(j, n0)), Not(E.fld(v0(j), "startIn_").has(i)))

    def frame(E, k, L):
        s = E.fld(q, "startIn_")
        return And(eq(s.has(c.other), c.o0[0]), eq(s.get(c.other).get("start"), c.o0[1].get("start")),
                   eq(s.get(c.other).get("stamp"), c.o0[1].get("stamp")),
                   Implies(Not(c.qmem), And(eq(s.has(i), oh), eq(s.get(i).get("start"), os.get("start")),
                                            eq(s.get(i).get("stamp"), os.get("stamp")))))
    E.loopinv[VV + "::clear"] = loops.Ind(("members forget their slot", er, "all"), ("the rest is untouched", frame))
    E.call(VV + "::clear", vv)
    E.prove("the vector is empty", And(eq(num(E, vv), 0), eq(E.fld(vv, "size_"), 0)))
    post(E, c, False)


@unit("VariableVector observers", [VV + "::contains", VV + "::intersects", VV + "::indexOf", VV + "::totalSize",
                                   VV + "::numberOfVariables", VV + "::operator[]"])
def observers(E):
    c = setup(E)
    w = E.obj(V, "v")
    E.assume(lt(0, size(E, w)))
    v0, n0, s0 = snapshot(E, c)
    k = E.skolem("m")
    mem = And(le(0, k), lt(k, n0))
    if E.choose():
        E.prove("total size", eq(E.call(VV + "::totalSize", c.vv), s0))
        E.prove("number of variables", eq(E.call(VV + "::numberOfVariables", c.vv), n0))
        E.assume(mem)
        E.prove("i-th variable", eq(E.call(VV + "::operator[]", c.vv, [k]).a, v0(k).a))
    elif E.choose():
        r = B(E.call(VV + "::contains", c.vv, [E.deref(w)]))
        E.prove("contains: not missed", Implies(And(mem, cont(E, v0(k), w)), r))
        E.prove("contains: not invented", Implies(r, exists_member(E, v0, n0, lambda v: cont(E, v, w))))
    elif E.choose():
        r = B(E.call(VV + "::intersects", c.vv, [E.deref(w)]))
        E.prove("intersects: not missed", Implies(And(mem, inter(E, v0(k), w)), r))
        E.prove("intersects: not invented", Implies(r, exists_member(E, v0, n0, lambda v: inter(E, v, w))))
    else:
        r = E.call(VV + "::indexOf", c.vv, [E.deref(w)])
        E.index(r)
        same = lambda v: And(cont(E, v, w), cont(E, w, v))
        E.prove("index of a member", Or(And(eq(r, -1), Not(And(mem, same(v0(k))))), And(le(0, r), lt(r, n0), same(v0(r)))))


@unit("getMappingOf / getMappingIn", [VV + "::getMappingOf", V + "::getMappingIn"])
def mapping(E):
    c = setup(E)
    vv, q = c.vv, c.q
    v0, n0, s0 = snapshot(E, c)
    old = frozen(E, lambda k: start(E, vv, var(E, vv, k)))
    if E.choose():
        r, t = tcall(E, VV + "::getMappingOf", vv, [E.deref(q)])
    else:
        r, t = tcall(E, V + "::getMappingIn", q, [E.deref(vv)])
    k = E.skolem("m")
    if t is not None:
        E.prove("refused only when absent", Not(And(le(0, k), lt(k, n0), cont(E, v0(k), q))))
        return
    E.prove("the slot has the size of the variable", eq(r.get("dim"), size(E, q)))
    E.prove("the slot exists only for a covered variable", exists_member(E, v0, n0, lambda v: cont(E, v, q)))
    E.prove("the slot is the concatenation offset", Implies(
        And(le(0, k), lt(k, n0), cont(E, v0(k), q)),
        eq(r.get("start"), add(old(k), sub(seg(E, q)[1], seg(E, v0(k))[1])))))
    i = E.skolem("i")
    E.index(simp(add(i, 1)))
    E.prove("members keep their slots", elem(E, vv, i))
    E.prove("a slot remembered by another variable is outdated or right", Or(c.qmem, Or(*[
        cached(E, vv, q, m) for m in list(E.idx)])))
    h, s = E.fld(q, "startIn_").has(c.other), E.fld(q, "startIn_").get(c.other)
    E.prove("what variables remember for other vectors is unchanged", And(
        eq(h, c.o0[0]), Implies(h, And(eq(s.get("start"), c.o0[1].get("start")), eq(s.get("stamp"), c.o0[1].get("stamp"))))))


@unit("VariableVector::operator=", [VV + "::operator=", VV + "::add"])
def assign(E):
    c = setup(E)
    f = [f for f in E.prog.byname.get(VV + "::operator=", []) if f["params"][0]["t"].startswith("const")]
    if len(f) != 1:
        raise Unsupported("operator=")
    old = snapshot(E, c)
    log = []

    def clr(E, this, args, fn):
        log.append("clear")
        E.setfld(c.vv, "variables_", Vec.of([], "std::shared_ptr<tvm::Variable>"))
        E.setfld(c.vv, "size_", 0)
    E.stubs[VV + "::clear"] = clr
    E.stubs[fn(E, "add", lambda t: "std::vector" in t)["key"]] = lambda E, this, args, fn: log.append(
        (E.read(args[0]) if isinstance(args[0], LV) else args[0]))
    if E.choose("self"):
        E.call(f[0]["key"], c.vv, [E.deref(c.vv)])
        if log:
            a = [x for x in log if x != "clear"]
            E.prove("assigning a vector to itself keeps its content", And(len(a) == 1, eq(a[0].n if a else 0, old[1])))
        else:
            unchanged(E, c, old)
        return
    o = E.obj(VV, "from")
    E.assume(ne(o.a, c.vv.a))
    n1 = num(E, o)
    k = E.skolem("k")
    x = var(E, o, k)
    E.call(f[0]["key"], c.vv, [E.deref(o)])
    ok = len(log) == 2 and log[0] == "clear"
    E.prove("the content is replaced by that of the other vector", And(ok, *(
        [eq(log[1].n, n1), Implies(And(le(0, k), lt(k, n1)), eq(log[1].get(k).a, x.a))] if ok else [])))


def offset(E, vv, k):
    """offset of the k-th slot, or the total size"""
    return ite(lt(k, num(E, vv)), start(E, vv, var(E, vv, k)), E.fld(vv, "size_")) if isz(num(E, vv)) or num(E, vv) > 0 else 0


def cell(E, v, i):
    a, o, n = seg(E, v)
    return E.dread(a, simp(add(o, i)))


@unit("VariableVector::value", [VV + "::value"])
def value(E):
    c = setup(E)
    vv = c.vv
    i = E.fresh("int", "i")
    E.assume(le(0, i))

    def done(E, k, L, j):
        v = var(E, vv, j)
        return Implies(And(lt(j, k), lt(j, num(E, vv)), lt(i, size(E, v))),
                       eq(E.asmat(E.fld(vv, "value_")).at(simp(add(start(E, vv, v), i)), 0), cell(E, v, i)))
    E.loopinv[VV + "::value"] = loops.Ind(
        ("values copied so far", done, "all"),
        ("running offset", lambda E, k, L: And(len(L) == 1, eq(L[0], offset(E, vv, k)) if L else True)),
        ("size of the result", lambda E, k, L: And(eq(E.asmat(E.fld(vv, "value_")).r, E.fld(vv, "size_")),
                                                   eq(E.asmat(E.fld(vv, "value_")).c, 1))))
    r = E.call(VV + "::value", vv)
    r = E.asmat(E.read(r) if isinstance(r, LV) else r)
    m = E.skolem("m")
    v = var(E, vv, m)
    E.prove("the concatenated value has the total size", eq(r.r, E.fld(vv, "size_")))
    E.prove("each slot holds the value of its variable", Implies(
        And(le(0, m), lt(m, num(E, vv)), lt(i, size(E, v))), eq(r.at(simp(add(start(E, vv, v), i)), 0), cell(E, v, i))))


@unit("VariableVector::set", [VV + "::set", V + "::set"])
def setv(E):
    c = setup(E)
    vv = c.vv
    val = E.sym("Eigen::Matrix<double, -1, 1>", "val")
    E.assume(eq(val.r, E.fld(vv, "size_")))
    i, a, o = E.fresh("int", "i"), E.fresh("int", "a"), E.fresh("int", "o")
    E.assume(And(le(0, i)))
    old = E.dread(a, o)
    inside = lambda v: And(eq(seg(E, v)[0], a), le(seg(E, v)[1], o), lt(o, add(seg(E, v)[1], size(E, v))))
    E.forall(loops.template(E, lambda j: Not(And(le(0, j), lt(j, num(E, vv)), inside(var(E, vv, j)))), 1))

    def done(E, k, L, j):
        v = var(E, vv, j)
        return Implies(And(lt(j, k), lt(j, num(E, vv)), lt(i, size(E, v))),
                       eq(cell(E, v, i), val.at(simp(add(start(E, vv, v), i)), 0)))
    E.loopinv[VV + "::set"] = loops.Ind(
        ("values set so far", done, "all"), ("nothing else is written", lambda E, k, L: eq(E.dread(a, o), old)),
        ("running offset", lambda E, k, L: And(len(L) == 1, eq(L[0], offset(E, vv, k)) if L else True)))
    f = [f for f in E.prog.byname.get(VV + "::set", []) if len(f["params"]) == 1]
    E.call(f[0]["key"], vv, [val])
    m = E.skolem("m")
    v = var(E, vv, m)
    E.prove("each variable gets its part", Implies(And(le(0, m), lt(m, num(E, vv)), lt(i, size(E, v))), eq(
        cell(E, v, i), val.at(simp(add(start(E, vv, v), i)), 0))))
    E.prove("nothing but the members is written", eq(E.dread(a, o), old))


@unit("VariableVector::setZero", [VV + "::setZero", V + "::setZero"])
def zero(E):
    c = setup(E)
    vv = c.vv
    i, a, o = E.fresh("int", "i"), E.fresh("int", "a"), E.fresh("int", "o")
    E.assume(And(le(0, i)))
    old = E.dread(a, o)
    inside = lambda v: And(eq(seg(E, v)[0], a), le(seg(E, v)[1], o), lt(o, add(seg(E, v)[1], size(E, v))))
    E.forall(loops.template(E, lambda j: Not(And(le(0, j), lt(j, num(E, vv)), inside(var(E, vv, j)))), 1))

    def done(E, k, L, j):
        v = var(E, vv, j)
        return Implies(And(lt(j, k), lt(j, num(E, vv)), lt(i, size(E, v))), eq(cell(E, v, i), 0))
    E.loopinv[VV + "::setZero"] = loops.Ind(
        ("values set so far", done, "all"), ("nothing else is written", lambda E, k, L: eq(E.dread(a, o), old)))
    E.call(VV + "::setZero", vv)
    m = E.skolem("m")
    v = var(E, vv, m)
    E.prove("each variable is zero", Implies(And(le(0, m), lt(m, num(E, vv)), lt(i, size(E, v))), eq(cell(E, v, i), 0)))
    E.prove("nothing but the members is written", eq(E.dread(a, o), old))
