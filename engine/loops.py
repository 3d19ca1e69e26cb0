"""Loops. A loop whose number of iterations is decided by the path is executed; otherwise it is summarised exactly
(search, accumulation, element-wise map, append) or cut by a contract's invariant; otherwise it is out of reach."""
from fractions import Fraction
import z3
from values import *
import cxxtypes as T
from sym import RetX, BrkX, ContX, ThrowX, AbortX, PathEnd
import interp as N


def load(E, x):
    return N.load(E, x)


MAX_UNROLL = 64


# ------------------------------------------------------------------ generic counted loop: [lo, hi) over a generic index
class Counted:
    """k-th iteration (0 <= k < n): body(k) executes the body; after(k) leaves loop variables as after k iterations"""

    def __init__(self, n, body, setk):
        self.n, self.body, self.setk = n, body, setk


def run(E, s):
    k = s["k"]
    f = E.env["frame"].f
    handler = E.loops.get((f["name"], s.get("lid"))) or E.loops.get((f["name"], None))
    if handler is not None:
        r = handler(E, s)
        if r is not NotImplemented:
            return
    if k == "ForRange":
        return for_range(E, s)
    if k == "For":
        if s["init"]:
            N.ex(E, s["init"])
        return generic(E, s, s["c"], s["inc"], s["body"], False)
    if k == "While":
        return generic(E, s, s["c"], None, s["body"], False)
    if k == "Do":
        return generic(E, s, s["c"], None, s["body"], True)


def body_once(E, body):
    """-> 'next' | 'break'; other exits propagate"""
    try:
        N.ex(E, body)
    except ContX:
        return "next"
    except BrkX:
        return "break"
    return "next"


def for_range(E, s):
    r = N.ev(E, s["range"])
    rv = load(E, r)
    if isinstance(rv, Struct) and rv.cls and E.prog.is_repo(rv.cls) or (
            isinstance(r, LV) and r.root[0] == "h" and not r.path):
        # class with begin()/end(): evaluate them on the range
        lv = N.settle(E, N.to_lv(E, r))
        rv, r = container_of(E, lv, s)
    if isinstance(rv, MapV):
        h = E.stubs.get("map iteration")
        if h is not None:
            return h(E, s, N.to_lv(E, r), rv)
        if rv.n is not None and not isz(rv.n) and rv.n == 0:
            return
        return over_map(E, s, N.to_lv(E, r), rv)
    if not isinstance(rv, Vec):
        raise Unsupported("range-for over %s" % type(rv).__name__)
    over(E, s, rv, N.to_lv(E, r))


def over_map(E, s, where, m):
    """the elements of a map or set in an arbitrary order. A contract that needs a given key to be met declares it in
    E.mapkeys before the loop"""
    if m.n is None:
        raise Unsupported("iteration over a map of unknown size")
    n = simp(m.n)
    kt = T.strip_const(m.kt)
    if T.is_ptr(kt):
        mk = lambda t: Ptr(t, T.strip_const(T.pointee(kt)))
    elif kt in T.INT_TYPES or kt in E.prog.enums:
        mk = lambda t: t
    else:
        raise Unsupported("iteration over a map of " + kt)
    fid = E.fresh_id()
    key, pos = [z3.Function("%s!%d" % (x, fid), z3.IntSort(), z3.IntSort()) for x in ("key", "rank")]
    E.fact(le(0, n))
    E.forall(lambda k: Implies(And(le(0, k), lt(k, n)), And(m.has(mk(key(I(k)))), eq(pos(key(I(k))), k))))
    for x in E.mapkeys:
        t = x.a if isinstance(x, Ptr) else x
        if isinstance(x, Ptr) != T.is_ptr(kt):
            continue
        E.index(pos(I(t)))
        E.fact(Implies(m.has(x), And(le(0, pos(I(t))), lt(pos(I(t)), n), eq(key(pos(I(t))), t))))
    if m.kt == m.vt:
        et, get = kt, lambda k: mk(key(I(k)))
    else:
        et = "std::pair<const %s, %s>" % (m.kt, m.vt)
        get = lambda k: Struct("std::pair", {"first": mk(key(I(k))), "second": m.get(mk(key(I(k))))})
    seen = Vec(n, get, et)
    lv = E.local(seen, None)
    E.maploops.append(lambda x: pos(I(x.a if isinstance(x, Ptr) else x)))
    over(E, s, seen, lv)
    E.maploops.pop()
    if E.read(lv) is not seen:
        raise Unsupported("the elements of a map are modified by a loop over it")
    now = load(E, where)
    if not isinstance(now, MapV) or simp(eq(now.n, n)) is not True:
        raise Unsupported("a map changes during a loop over it")


def over(E, s, rv, lv):
    var = s["var"]

    def bind(k):
        k = E.index(k)
        el = lv.step("ix", k)
        if T.is_ref(var["t"]):
            E.env[var["id"]] = N.settle(E, el)
            if var.get("bindings"):
                N.decl(E, dict(var, init=None, t=var["t"], bindings=None))
        else:
            E.env[var["id"]] = E.local(load(E, el), N.same_type_cls(var["t"]))
        if var.get("bindings"):
            for b in var["bindings"]:
                bind_binding(E, b, E.env[var["id"]])

    def once(k):
        bind(k)
        return body_once(E, s["body"])
    counted(E, s, rv.n, once, (), lambda k: lt(k, load(E, lv).n))


def bind_binding(E, b, base):
    e = b.get("e")
    if b.get("hold"):
        raise Unsupported("structured binding of a tuple-like class")
    if e is None:
        raise Unsupported("structured binding")
    E.env[b["id"]] = N.ev(E, e)


def container_of(E, lv, s):
    b = s["begin"]
    init = b["vars"][0]["init"] if b else None
    x = init
    while x is not None and x["k"] in ("Cast", "Temp", "Construct"):
        x = x["e"] if "e" in x else (x["args"][0] if x.get("args") else None)
    if x is None or x["k"] not in ("MCall", "Call"):
        raise Unsupported("range of a class type")
    it = N.call_ref(E, x["fn"], lv, [], x) if x["k"] == "MCall" else None
    it = load(E, it)
    if not isinstance(it, Iter):
        raise Unsupported("range of a class type")
    return load(E, it.lv), it.lv


def counted(E, s, n, once, counters=(), cond_at=None):
    """iterations 0..n-1 of once(k); True when left by break"""
    n = simp(n)
    if not isz(n):
        if n > MAX_UNROLL:
            raise Unsupported("long loop")
        for k in range(n):
            if once(k) == "break":
                return True
        return False
    # number decided by the path?
    for c in range(0, 5):
        if E.must(eq(n, c)):
            for k in range(c):
                if once(k) == "break":
                    return True
            return False
        if not E.may(le(n, c)):
            continue
        break
    return bool(summarise(E, s, n, once, counters, cond_at))


def generic(E, s, cond, inc, body, do):
    """while/for loops: unroll while decided; recognise counted loops otherwise"""
    cnt = 0
    if isinstance(invariant_of(E, s), While):
        if do:
            raise Unsupported("do loop")
        return while_loop(E, s, cond, inc, body, invariant_of(E, s))
    if not do and cond is not None and invariant_of(E, s) is not None:
        return symbolic_loop(E, s, cond, inc, body)
    while True:
        if do and cnt == 0:
            r = body_once(E, body)
            if r == "break":
                return
            cnt += 1
            continue
        c = True if cond is None else undecided_cond(E, cond)
        if c is None:
            if cnt > 0 and not isinstance(cnt, int):
                raise Unsupported("loop")
            return symbolic_loop(E, s, cond, inc, body)
        if not c:
            return
        r = body_once(E, body)
        if r == "break":
            return
        if inc:
            N.ev(E, inc)
        cnt += 1
        if cnt > MAX_UNROLL:
            raise Unsupported("long loop")


def undecided_cond(E, cond):
    """True/False if the condition is decided on this path, None otherwise (nothing is assumed)"""
    outs = E.explore_sub(lambda: E.branch(N.B_(E, N.ev(E, cond))))
    vals = {r for _, r, _ in outs}
    if vals == {True}:
        E.branch(N.B_(E, N.ev(E, cond)))    # effects and facts
        return True
    if vals == {False}:
        N.ev(E, cond) if False else E.branch(N.B_(E, N.ev(E, cond)))
        return False
    return None


def assigned_vars(e, acc):
    """ids of local variables incremented by expression e (++x, x += ..)"""
    if isinstance(e, list):
        for x in e:
            assigned_vars(x, acc)
        return acc
    if not isinstance(e, dict):
        return acc
    if e.get("k") == "Unary" and e["op"] in ("++", "--"):
        if e["e"]["k"] == "Ref":
            acc.append((e["e"]["id"], 1 if e["op"] == "++" else -1))
            return acc
    if e.get("k") == "OpCall" and e["op"] in ("++", "--"):
        a = e["args"][0]
        while a["k"] in ("Cast",):
            a = a["e"]
        if a["k"] == "Ref":
            acc.append((a["id"], 1 if e["op"] == "++" else -1))
            return acc
    if e.get("k") == "CAssign" and e["op"] in ("+=", "-=") and e["l"]["k"] == "Ref":
        acc.append((e["l"]["id"], e))
        return acc
    if e.get("k") == "Binary" and e["op"] == ",":
        assigned_vars(e["l"], acc)
        assigned_vars(e["r"], acc)
        return acc
    for v in e.values():
        if isinstance(v, (dict, list)):
            assigned_vars(v, acc)
    return acc


def symbolic_loop(E, s, cond, inc, body):
    if inc is None:
        raise Unsupported("while loop without an invariant")
    ivs = assigned_vars(inc, [])
    if not ivs or any(not isinstance(d, int) for _, d in ivs):
        raise Unsupported("loop increment")
    start = {}
    for i, d in ivs:
        v = load(E, E.env[i])
        start[i] = v

    def setk(k):
        for i, d in ivs:
            v = start[i]
            nv = Iter(v.lv, simp(add(v.k, mul(d, k))), v.rev) if isinstance(v, Iter) else simp(add(v, mul(d, k)))
            E.write(E.env[i], nv)
            if d == 1:
                E.index(nv.k if isinstance(nv, Iter) else nv)
    # number of iterations: smallest n >= 0 such that the condition is false after n increments
    def cond_at(k):
        setk(k)
        return N.B_(E, N.ev(E, cond))
    k0 = E.fresh("int", "k")
    E.solver.push()
    try:
        sv = E.save()
        E.assume(k0 >= 0)
        c = cond_at(k0)
        E.restore(sv)
    finally:
        E.solver.pop()
    n = bound_from(E, c, k0)
    if n is None:
        raise Unsupported("loop condition is not a counted bound: " + str(c)[:100])

    def once(k):
        setk(k)
        return body_once(E, body)
    once.setk = setk
    # on normal exit the loop variables hold their final value
    if not counted(E, s, n, once, [E.env[i].root for i, _ in ivs], cond_at):
        setk(n)


def bound_from(E, c, k):
    """c is (k < n) up to linear arithmetic -> n (clamped at 0)"""
    if isinstance(c, bool):
        return None
    c = z3.simplify(c)
    from sums import expand, contains

    def linear(t):
        p = expand(t)
        co, rest = Fraction(0), z3.IntVal(0)
        for key, (at, cf) in p.items():
            if any(contains(a, k) for a in at):
                if len(at) == 1 and at[0].eq(k):
                    co += cf
                else:
                    return None
            else:
                x = z3.IntVal(int(cf))
                for a in at:
                    x = x * a
                rest = rest + x
        return co, rest

    def bd(op, l, r):
        a = linear(l - r)
        if a is None:
            return None
        co, rest = a
        if op == "<":          # co*k + rest < 0
            if co == 1:
                return -rest
            return None
        if op == "<=":
            if co == 1:
                return -rest + 1
            return None
        if op == "!=":
            if co == 1:
                n = -rest
            elif co == -1:
                n = rest
            else:
                return None
            return ("ne", n)
        return None
    r = None
    if z3.is_not(c):
        d = c.arg(0)
        if z3.is_eq(d):
            r = bd("!=", d.arg(0), d.arg(1))
        elif z3.is_le(d):
            r = bd("<", d.arg(1), d.arg(0))
        elif z3.is_ge(d):
            r = bd("<", d.arg(0), d.arg(1))
        elif z3.is_lt(d):
            r = bd("<=", d.arg(1), d.arg(0))
        elif z3.is_gt(d):
            r = bd("<=", d.arg(0), d.arg(1))
    elif z3.is_lt(c):
        r = bd("<", c.arg(0), c.arg(1))
    elif z3.is_le(c):
        r = bd("<=", c.arg(0), c.arg(1))
    elif z3.is_gt(c):
        r = bd("<", c.arg(1), c.arg(0))
    elif z3.is_ge(c):
        r = bd("<=", c.arg(1), c.arg(0))
    elif z3.is_distinct(c):
        r = bd("!=", c.arg(0), c.arg(1))
    if r is None:
        return None
    if isinstance(r, tuple):
        n = z3.simplify(r[1])
        E.prove("loop bound is reached", n >= 0, safety=True)
        return n
    n = z3.simplify(r)
    if E.must(n >= 0):
        return n
    return z3.If(n >= 0, n, z3.IntVal(0))


# ------------------------------------------------------------------ summaries
def outcome(E, once, k):
    """run once(k) catching every exit -> tag"""
    try:
        r = once(k)
        return ("next",) if r == "next" else ("break",)
    except RetX as x:
        return ("ret", x.v)
    except ThrowX as x:
        return ("throw", x.t)
    except AbortX as x:
        return ("abort", x.msg)


def changed(E, before, after):
    """locations existing before whose content differs after"""
    out = []
    for r, v in before[0].items():
        if after[0].get(r) is not v:
            out.append(r)
    for key, h in after[1].items():
        h0 = before[1].get(key)
        if key == ("D",):
            if h is not h0:
                if h0 is None and not isinstance(h, HM) and h.__name__ == "<lambda>":
                    continue
                out.append(("heap", key))
            continue
        ups0 = h0.ups if h0 is not None else ()
        if h.ups is not ups0 and len(h.ups) != len(ups0) or any(a is not b for a, b in zip(h.ups, ups0)):
            # ignore objects allocated in the body
            new = [u for u in h.ups if not any(u is w for w in ups0)]
            from sym import NEW_BASE
            pre_next = before_next(E)
            if all((not isz(u[0])) and u[0] > pre_next for u in new):
                continue
            out.append(("heap", key))
    for g, v in after[13].items():
        if g in before[13] and before[13][g] is not v:
            out.append(g)
    if len(after[10]) != len(before[10]):
        out.append(("events",))
    return out


class HM:
    pass


_next = [0]


def before_next(E):
    return _next[0]


class Ind:
    """loop invariant given by a contract: items (label, fn(E, k, L)) or (label, fn(E, k, L, j), 'all') for every j >= 0,
    optionally followed by the kind of the indices;
    L: current values of the integer locals modified by the loop (in order of declaration)"""

    def __init__(self, *items, defs=()):
        """defs: definitions of ghost constants as values of the state at the start of some iteration"""
        self.items, self.defs = items, defs


class While:
    """loop invariant of a loop whose number of iterations is not known at entry: items (label, fn(E, L)) or
    (label, fn(E, L, j), 'all'[, kind]); measure(E, L): non-negative, decreased by every iteration"""

    def __init__(self, *items, measure=None):
        self.items, self.measure = items, measure


def at_state(E, st, fn):
    cur = (E.store, E.heap, E.globals_, E.env, E.dyn)
    E.store, E.heap, E.env, E.dyn, E.globals_ = dict(st[0]), dict(st[1]), dict(st[3]), dict(st[9]), dict(st[13])
    try:
        return fn()
    finally:
        E.store, E.heap, E.globals_, E.env, E.dyn = cur


def frozen(E, fn):
    """fn evaluated later, in the current state"""
    st = E.save()
    return lambda *a: at_state(E, st, lambda: fn(*a))


def template(E, fn, nargs):
    """fn(index...) evaluated once in the current state on generic indices; instances are substitutions"""
    st = E.save()
    xs = [E.fresh("int", "tpl") for _ in range(nargs)]
    idx, ids, idk = list(E.idx), set(E.idxset), dict(E.idxk)
    E.noinst += 1
    try:
        c = at_state(E, st, lambda: fn(*xs))
    finally:
        E.noinst -= 1
    E.idx, E.idxset, E.idxk = idx, ids, idk
    c = B(c)
    return lambda *a: z3.substitute(c, *[(x, I(v)) for x, v in zip(xs, a)])


class Values(list):
    """values of the locals a loop modifies: all of them, and apart the scalars and the positions of the iterators"""

    def __init__(self):
        self.scalars, self.iters = [], []


class Cut:
    """the locations modified by a loop, and the items of its invariant"""

    def __init__(c, E, outs, before, counters, ind):
        c.E, c.before, c.ind = E, before, ind
        c.mods = []
        for pc, r, st in outs:
            if r[0] == "next":
                for m in changed(E, before, st):
                    if m not in c.mods and m not in counters:
                        c.mods.append(m)
        if any(m and m[0] == "events" for m in c.mods):
            raise Unsupported("loop with recorded events")
        c.fname = E.env["frame"].f["name"].split("::")[-1]

    def L(c):
        E, mods = c.E, c.mods
        out = Values()
        for i, lv in E.env.items():
            if i == "frame" or not isinstance(lv, LV):
                continue
            if lv.root in mods and lv.root[0] not in ("heap", "g") and not lv.path:
                v = E.store.get(lv.root)
                if isscalar(v) or isinstance(v, Ptr):
                    out.append(v)
                    out.scalars.append(v)
                if isinstance(v, Iter):
                    out.append(v.k)
                    out.iters.append(v.k)
        return out

    def havoc(c):
        E, before = c.E, c.before
        for m in c.mods:
            if m[0] == "heap":
                h = E.heap.get(m[1])
                if m[1] == ("D",):
                    f = z3.Function("D!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort(), z3.RealSort())
                    E.heap[m[1]] = lambda arr, k, f=f: f(I(arr), I(k))
                else:
                    h0 = before[1].get(m[1]) or h or E.hmap(*m[1])
                    from sym import HMap
                    E.heap[m[1]] = HMap(h0.ft, "%s!%d" % (h0.name, E.fresh_id()))
                continue
            v0 = before[0][m] if m in before[0] else before[13][m]
            if isinstance(v0, Struct):
                v = E.sym(v0.cls, "h!%d" % E.fresh_id())
            else:
                v, _, facts = havoc_like(E, v0)
                for f in facts:
                    E.fact(f)
            if m[0] == "g":
                E.globals_[m] = v
            else:
                E.store[m] = v

    def items(c, pre, assume, label=None):
        E = c.E
        for it in c.ind.items:
            if len(it) == 2:
                x = it[1](E, *pre, c.L())
                if assume:
                    E.assume(x)
                else:
                    E.prove("%s: loop invariant %s: %s" % (c.fname, label, it[0]), x)
            elif assume:
                E.forall(template(E, lambda j, it=it: Implies(le(0, j), it[1](E, *pre, c.L(), j)), 1),
                         kind=it[3] if len(it) > 3 else None)
            else:
                j = E.skolem("j", *it[3:])
                E.assume(le(0, j))
                E.prove("%s: loop invariant %s: %s" % (c.fname, label, it[0]), it[1](E, *pre, c.L(), j))


def while_loop(E, s, cond, inc, body, ind):
    """cut of a loop of unknown length by an invariant"""
    before = E.save()
    _next[0] = E.nextaddr

    def once():
        r = body_once(E, body)
        if r == "next" and inc:
            N.ev(E, inc)
        return r

    def generic_run():
        E.assume(N.B_(E, N.ev(E, cond)))
        return outcome(E, lambda k: once(), None)
    key = ("mods", E.hist, E.nq, E.nextid, E.nextaddr)
    if key in E.known:          # found on a path explored before
        mods, E.nextid, E.nextaddr, E.hist, E.nq = E.known[key]
        if mods is None:
            return
        c = Cut(E, [], before, (), ind)
        c.mods = list(mods)
    else:
        c = modified(E, generic_run, cond, before, ind)
        E.known[key] = (c and list(c.mods), E.nextid, E.nextaddr, E.hist, E.nq)
        if c is None:
            return
    c.items((), False, "at entry")
    again = E.choose("induction step")
    c.havoc()
    c.items((), True)
    go = N.B_(E, N.ev(E, cond))
    if not again:
        E.assume(Not(go))
        return
    E.assume(go)
    m0 = ind.measure(E, c.L()) if ind.measure else None
    mid = E.save()
    r = once()
    if r == "break":
        return True
    extra = [x for x in changed(E, mid, E.save()) if x not in c.mods and not (x[0] == "l" and x not in before[0])]
    if extra:
        raise Unsupported("loop modifies more after the first iteration: %s" % (extra[:3],))
    c.items((), False, "preserved")
    if ind.measure:
        E.prove("%s: the loop terminates" % c.fname, And(le(0, m0), lt(ind.measure(E, c.L()), m0)))
    raise PathEnd()


def modified(E, generic_run, cond, before, ind):
    """the cut of a loop: what any iteration modifies; None when the body cannot run"""
    def outs():
        E.quiet = getattr(E, "quiet", 0) + 1
        try:
            return E.explore_sub(generic_run)
        finally:
            E.quiet -= 1
    r = outs()
    if not r and not E.may(N.B_(E, N.ev(E, cond))):
        return None
    c = Cut(E, r, before, (), ind)
    while True:         # the later iterations
        at, known = E.save(), list(c.mods)
        c.havoc()
        then = E.save()
        r = outs()
        E.restore(at)
        for pc, x, st in r:
            if x[0] == "next":
                c.mods += [m for m in changed(E, then, st) if m not in c.mods and not (m[0] == "l" and m not in before[0])]
        if c.mods == known:
            return c


def inductive(E, s, n, once, ind, counters=(), cond_at=None):
    """cut by an invariant: proved at entry, preserved by a generic iteration, assumed at exit"""
    fname = E.env["frame"].f["name"].split("::")[-1]
    before = E.save()
    kg = E.fresh("int", "it")
    _next[0] = E.nextaddr

    def generic_run():
        E.assume(And(le(0, kg), lt(kg, n)))
        E.index(kg)
        E.index(kg, "iter")
        return outcome(E, once, kg)
    E.quiet = getattr(E, "quiet", 0) + 1
    try:
        outs = E.explore_sub(generic_run)
    finally:
        E.quiet -= 1
    cut = Cut(E, outs, before, counters, ind)
    mods, havoc, L = cut.mods, cut.havoc, cut.L

    def items(k, assume, label=None):
        cut.items((k,), assume, label)
    items(0, False, "at entry")
    E.fact(le(0, n)) if isz(n) and E.must(le(0, n)) else E.assume(le(0, n))
    if E.choose("induction step"):
        E.assume(And(le(0, kg), lt(kg, n)))
        E.index(kg)
        E.index(kg, "iter")
        havoc()
        items(kg, True)
        for d in ind.defs:
            E.assume(d(E, kg, L()))
        mid = E.save()
        r = once(kg)        # other exits leave from here
        if r == "break":
            return True
        extra = [c for c in changed(E, mid, E.save()) if c not in mods and c not in counters]
        if extra:
            raise Unsupported("loop modifies more after the first iteration: %s" % (extra[:3],))
        if cond_at is not None:
            c = cond_at(simp(add(kg, 1)))
            if not E.must(And(Implies(lt(add(kg, 1), n), c), Implies(le(n, add(kg, 1)), Not(c)))):
                raise Unsupported("the number of iterations changes during the loop")
        items(simp(add(kg, 1)), False, "preserved")
        raise PathEnd()
    havoc()
    E.index(n)
    items(n, True)


def calls(s, name):
    """does the statement call a function of this (qualified) name?"""
    if isinstance(s, list):
        return any(calls(x, name) for x in s)
    if not isinstance(s, dict):
        return False
    fn = s.get("fn")
    if isinstance(fn, dict) and fn.get("name") == name:
        return True
    return any(calls(v, name) for k, v in s.items() if k != "fn" and isinstance(v, (list, dict)))


def nested(s):
    """is there a loop inside this one?"""
    def has(x):
        if isinstance(x, list):
            return any(has(y) for y in x)
        return isinstance(x, dict) and (x.get("k") in ("For", "ForRange", "While", "Do") or any(has(v) for v in x.values()))
    return has(s["body"])


def invariant_of(E, s):
    fr = E.env.get("frame")
    if fr is None or s.get("k") == "alg":
        return None
    r = E.loopinv.get((fr.f["name"], s.get("lid"))) or E.loopinv.get(fr.f["name"])
    if r is None and "lambda" in E.loopinv and "operator()" in fr.f["name"]:
        r = E.loopinv["lambda"]
    if callable(r):                 # chosen from what the loop does
        return r(E, s)
    if isinstance(r, list):         # one per loop, in the order they are met
        seen = E.memo.setdefault(("loops of", fr.f["key"]), [])
        if s.get("lid") not in seen:
            seen = E.memo[("loops of", fr.f["key"])] = seen + [s.get("lid")]
        i = seen.index(s.get("lid"))
        r = r[i] if i < len(r) else None
    return r


def plain_counter(E, once, c, k, v):
    """the loop variable holds what the head of the k-th iteration gave it: it is set again for the next one and at the end"""
    setk = getattr(once, "setk", None)
    if setk is None or isinstance(v, Iter) or v is None:
        return False
    sv = E.save()
    setk(k)
    w = E.store.get(c)
    E.restore(sv)
    return not isinstance(w, Iter) and (w is v or simp(eq(w, v)) is True)


def summarise(E, s, n, once, counters=(), cond_at=None):
    """loop of symbolic length n"""
    fr = E.env.get("frame")
    ind = invariant_of(E, s)
    if ind is not None:
        return inductive(E, s, n, once, ind, counters, cond_at)
    E.fact(Or(le(0, n), lt(n, 0)))
    before = E.save()
    _next[0] = E.nextaddr
    kg = E.fresh("int", "it")

    def generic_run():
        E.assume(And(le(0, kg), lt(kg, n)))
        E.index(kg)
        E.index(kg, "iter")
        return outcome(E, once, kg)
    outs = E.explore_sub(generic_run)
    mods = set()
    for pc, r, st in outs:
        if r[0] == "next":
            for c in changed(E, before, st):
                if c in counters and plain_counter(E, once, c, kg, st[0].get(c)):
                    continue
                mods.add(c)
    exits = [o for o in outs if o[1][0] != "next"]
    ids = [i for i, lv in E.env.items() if i != "frame"]
    # variables whose content is only an iteration-local binding are not state
    if not mods:
        return search_summary(E, n, once, bool(exits))
    if exits and any(True for _ in mods):
        return accum_summary(E, s, n, once, mods, True, outs, counters)
    return accum_summary(E, s, n, once, mods, False, outs, counters)


def exit_cond(E, n, once, j, benign=("next",)):
    """condition under which iteration j leaves the loop (current state, which the loop does not change)"""
    def f():
        E.assume(And(le(0, j), lt(j, n)))
        return outcome(E, once, j)
    E.noinst += 1
    E.quiet = getattr(E, "quiet", 0) + 1        # its obligations were stated for the generic iteration
    try:
        outs = E.explore_sub(f)
    finally:
        E.noinst -= 1
        E.quiet -= 1
    c = []
    for pc, r, st in outs:
        if r[0] not in benign:
            # definitional facts hold anyway
            cc = [x for x in pc if x.get_id() not in E.factids]
            for x in pc:
                if x.get_id() in E.factids:
                    E.fact(x)
            c.append(And(*cc) if cc else True)
    return Or(*c) if c else False


def search_summary(E, n, once, has_exit):
    if not has_exit:
        return
    st = E.save()

    def stays(j, upto):
        """iteration j (< upto) does not leave the loop, evaluated in the state at loop entry"""
        cur = E.save()
        E.store, E.heap = dict(st[0]), dict(st[1])
        env = E.env
        E.env = dict(env)
        try:
            c = exit_cond(E, n, once, j)
        finally:
            E.restore(cur)
        return Implies(And(le(0, j), lt(j, upto), lt(j, n)), Not(c))
    frame_env = dict(E.env)

    def at(upto):
        def fn(j):
            env = E.env
            E.env = dict(frame_env)
            try:
                return stays(j, upto)
            finally:
                E.env = env
        return fn
    if E.choose("exit"):
        k0 = E.fresh("int", "k")
        E.assume(And(le(0, k0), lt(k0, n)))
        E.index(k0)
        E.forall(at(k0))
        # execute the leaving iteration for real; a normal end contradicts the choice
        r = once(k0)
        if r == "break":
            return True
        raise PathEnd()
    E.forall(at(n))
    return


def fixed_field(E, before, key, outs):
    """the address of the only object whose field (cls, name) the iterations modify, the same for all of them"""
    if not (isinstance(key, tuple) and len(key) == 2):
        return None
    at = None
    for pc, r, st in outs:
        h = st[1].get(key)
        if h is None or h is before[1].get(key):
            continue
        ups0 = before[1][key].ups if key in before[1] else ()
        for u in h.ups:
            if any(u is w for w in ups0):
                continue
            if isz(u[0]) or (at is not None and at != u[0]):
                return None
            at = u[0]
    return at


def accum_summary(E, s, n, once, mods, has_exit, outs0, counters=()):
    """recognise, for every modified location, an accumulation / map / append form"""
    before = E.save()
    plans = {}
    # havoc the modified locations
    if any(isinstance(m, tuple) and m and m[0] in ("events",) for m in mods):
        raise Unsupported("loop with recorded events")
    locs = []
    for m in mods:
        if m[0] == "heap":
            a = fixed_field(E, before, m[1], [o for o in outs0 if o[1][0] == "next"])
            if a is None:
                raise Unsupported("loop modifying objects (%s) without an invariant" % (m[1],))
            m = ("field", m[1][0], m[1][1], a)
        locs.append(m)
    entry = {}
    sym = {}
    for r in locs:
        entry[r] = E.hread(*r[1:]) if r[0] == "field" else before[0][r] if r in before[0] else before[13][r]
        sym[r] = havoc_like(E, entry[r])
    kg = E.fresh("int", "it")

    def put(r, v):
        if r[0] == "g":
            E.globals_[r] = v
        elif r[0] == "field":
            E.hwrite(r[1], r[2], r[3], v)
        else:
            E.store[r] = v

    closed = {}

    def run_generic():
        E.assume(And(le(0, kg), lt(kg, n)))
        E.index(kg)
        E.index(kg, "iter")
        for r in locs:
            put(r, closed[r](kg) if r in closed else sym[r][0])
            if r not in closed:
                for f in sym[r][2]:
                    E.fact(f)
        return outcome(E, once, kg)
    for attempt in range(len(locs) + 1):
        outs = E.explore_sub(run_generic)
        if any(o[1][0] in ("break", "ret", "throw", "abort") for o in outs):
            exits = True
        else:
            exits = False
        progress = False
        for r in locs:
            if r in closed:
                continue
            v0 = entry[r]
            cf = closed_form(E, r, v0, sym[r], kg, n, [(o[0], o[2]) for o in outs if o[1][0] == "next"], locs, sym, closed)
            if cf is not None:
                closed[r] = cf
                progress = True
        if len(closed) == len(locs):
            break
        if not progress:
            raise Unsupported("loop without an invariant (modifies %d locations: %s)" % (len(locs), ", ".join(str(r) for r in locs)[:80]))
    for o in E.explore_sub(run_generic):
        # nothing else is modified in any iteration
        if o[1][0] == "next":
            for c in changed(E, before, o[2]):
                if c[0] == "heap":
                    a = fixed_field(E, before, c[1], [o])
                    c = ("field",) + tuple(c[1]) + (a,) if a is not None else c
                if c not in locs and c not in counters:
                    raise Unsupported("loop without an invariant (a later iteration modifies %s)" % (c,))
    if exits:
        # the exits may depend on accumulated state: evaluate them with the closed forms
        return exit_with_closed(E, s, n, once, locs, closed, put)
    for r in locs:
        put(r, closed[r](n))


def exit_with_closed(E, s, n, once, locs, closed, put):
    st = E.save()
    frame_env = dict(E.env)

    def stays(j, upto):
        cur = E.save()
        E.store, E.heap = dict(st[0]), dict(st[1])
        E.env = dict(frame_env)
        for r in locs:
            put(r, closed[r](j))
        try:
            c = exit_cond(E, n, once, j)
        finally:
            E.restore(cur)
        return Implies(And(le(0, j), lt(j, upto), lt(j, n)), Not(c))
    if E.choose("exit"):
        k0 = E.fresh("int", "k")
        E.assume(And(le(0, k0), lt(k0, n)))
        E.index(k0)
        E.forall(lambda j: stays(j, k0))
        for r in locs:
            put(r, closed[r](k0))
        r = once(k0)
        if r == "break":
            return True
        raise PathEnd()
    E.forall(lambda j: stays(j, n))
    for r in locs:
        put(r, closed[r](n))


def havoc_like(E, v):
    """(symbolic value of the same shape, kind, facts)"""
    if isinstance(v, Ptr):
        x = E.fresh("int", "hp")
        return Ptr(x, v.cls, v.own), "ptr", [x >= 0]
    if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
        return E.fresh("bool", "h"), "bool", []
    if isinstance(v, Fraction) or (isz(v) and v.sort() == z3.RealSort()):
        return E.fresh("real", "h"), "num", []
    if isscalar(v):
        return E.fresh("int", "h"), "num", []
    if isinstance(v, Iter) and v.k is not None:
        k = E.fresh("int", "h")
        return Iter(v.lv, k, v.rev), "iter", []
    if isinstance(v, Mat):
        f = z3.Function("h!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        return Mat(v.r, v.c, lambda i, j: f(I(i), I(j)), v.st), ("mat", f), []
    if isinstance(v, Vec):
        m = E.fresh("int", "hn")
        nm = "h!%d" % E.fresh_id()
        if v.et is None:
            raise Unsupported("havoc of an untyped container")
        return Vec(m, lambda k: E.sym(v.et, nm, [k]), v.et), ("vec", m, nm), [m >= 0]
    raise Unsupported("loop modifies a %s" % type(v).__name__)


def mentions(t, names):
    """does the term mention one of the havoc symbols"""
    if not isz(t):
        return False
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in names:
            return True
        # quantities abstracted by sums hide their body
        todo.extend(x.children())
    return False


def sym_names(sym):
    out = set()
    for v, kind, _ in sym.values():
        if isz(v):
            out.add(v.decl().name())
        elif isinstance(v, Mat):
            out.add(kind[1].name())
        elif isinstance(v, Vec):
            out.add(kind[1].decl().name())
            out.add(kind[2])
    return out


def subst_k(E, t, kg, k):
    if not isz(t):
        return t
    return simp(z3.substitute(t, (kg, I(k))))


def paths_ite(paths, f):
    """value of f(state) merged over the path conditions of the paths"""
    r = None
    for pc, st in reversed(paths):
        v = f(st)
        r = v if r is None else ite(And(*pc) if pc else True, v, r)
    return r


def closed_form(E, r, v0, symr, kg, n, paths, locs, sym, closed):
    """closed form k -> value before iteration k, or None"""
    if not paths:
        return lambda k: v0
    v, kind, _ = symr
    names = sym_names({q: sym[q] for q in locs if q not in closed})
    for pc, st in paths:
        for c in pc:
            if mentions(c, names):
                return None

    def content(st):
        if r[0] == "field":
            return at_state(E, st, lambda: E.hread(*r[1:]))
        return st[0][r] if r[0] != "g" else st[13][r]
    # the range guard is a common prefix of the path conditions
    if kind == "bool":
        nx = simp(paths_ite(paths, content))
        # x' = x and c / x or c
        tt = simp(z3.substitute(B(nx), (v, z3.BoolVal(True))))
        ff = simp(z3.substitute(B(nx), (v, z3.BoolVal(False))))
        if mentions(Z(tt), names) or mentions(Z(ff), names):
            return None
        if ff is False:                      # x' = x and tt
            def cf(k):
                return exists_forall(E, v0, k, lambda j: subst_k(E, B(tt), kg, j), True)
            return memo_cf(cf)
        if tt is True:                       # x' = x or ff
            def cf(k):
                return exists_forall(E, v0, k, lambda j: subst_k(E, B(ff), kg, j), False)
            return memo_cf(cf)
        return None
    if kind == "num":
        nx = simp(paths_ite(paths, content))
        d = simp(sub(nx, v))
        if mentions(Z(d), names):
            # maximum / minimum are left to contracts
            return None
        isint = v.sort() == z3.IntSort()

        def cf(k):
            k = simp(k)
            sm = E.msum(k, lambda j: subst_k(E, d, kg, j))
            if isint:
                if isz(d) is False:
                    return simp(add(v0, mul(d, k)))
                sm = int_sum(E, d, kg, k)
            return simp(add(v0, sm))
        return cf
    if isinstance(kind, tuple) and kind[0] == "mat":
        i, j = E.fresh("int", "ei"), E.fresh("int", "ej")
        for pc, st in paths:
            m = content(st)
            if not isinstance(m, Mat):
                return None
            if simp(eq(m.r, v.r)) is not True or simp(eq(m.c, v.c)) is not True:
                return None
        ds = simp(sub(paths_ite(paths, lambda st: content(st).get(i, j)), v.get(i, j)))
        if not mentions(Z(ds), names):
            def cf(k):
                g = v0.get
                return Mat(v0.r, v0.c, lambda a, b: add(g(a, b), E.msum(k, lambda q: sub3(E, ds, (kg, q), (i, a), (j, b)))),
                           v0.st)
            return cf
        # element-wise write at row kg: x'(i) = i == kg ? e : x(i)
        at = simp(paths_ite(paths, lambda st: content(st).get(kg, j)))
        off = E.fresh("int", "eo")
        oth = simp(paths_ite(paths, lambda st: content(st).get(off, j)))
        if not mentions(Z(at), names) and E_must(E, Implies(off != kg, eq(oth, v.get(off, j))), paths):
            def cf(k):
                g = v0.get
                return Mat(v0.r, v0.c, lambda a, b: ite(simp(And(le(0, a), lt(a, k))), sub3(E, at, (kg, a), (j, b)), g(a, b)),
                           v0.st)
            return cf
        return None
    if isinstance(kind, tuple) and kind[0] == "vec":
        m0 = v.n
        res = []
        for pc, st in paths:
            w = content(st)
            dn = simp(sub(w.n, m0))
            res.append((pc, w, dn))
        if all((not isz(dn)) and dn == 1 for _, _, dn in res) and len(res) == 1:
            w = res[0][1]
            el = w.get(m0)
            o = E.fresh("int", "eo")
            ok = scalar_leaves(el)
            if ok is None or any(mentions(Z(t), names) for t in ok):
                return None

            def cf(k):
                g, n0 = v0.get, v0.n
                return Vec(simp(add(n0, k)), lambda q: ite(simp(lt(q, n0)), g(q), map_leaves(
                    el, lambda t: subst_k(E, t, kg, simp(sub(q, n0))))) if not (not isz(n0) and n0 == 0) else map_leaves(
                    el, lambda t: subst_k(E, t, kg, q)), v0.et)
            return cf
        if all((not isz(dn)) and dn == 0 for _, _, dn in res) and len(res) == 1:
            w = res[0][1]
            el = w.get(kg)
            o = E.fresh("int", "eo")
            ok = scalar_leaves(el)
            a, b = scalar_leaves(w.get(o)), scalar_leaves(v.get(o))
            if ok is None or a is None or b is None or any(mentions(Z(t), names) for t in ok):
                return None
            if not E_must(E, Implies(o != kg, And(*[eq(x, y) for x, y in zip(a, b)])), paths):
                return None

            def cf(k):
                g, n0 = v0.get, v0.n
                return Vec(n0, lambda q: ite(simp(And(le(0, q), lt(q, k))), map_leaves(
                    el, lambda t: subst_k(E, t, kg, q)), g(q)), v0.et)
            return cf
        return None
    return None


def E_must(E, c, paths):
    s = z3.Solver()
    s.set("timeout", 2000)
    for a in E.pc:
        s.add(a)
    s.add(Not(c) if isz(c) else z3.BoolVal(not c))
    return s.check() == z3.unsat


def sub3(E, t, *ps):
    if not isz(t):
        return t
    return simp(z3.substitute(t, *[(a, I(b)) for a, b in ps]))


def memo_cf(f):
    m = {}

    def g(k):
        key = k.get_id() if isz(k) else k
        if key not in m:
            m[key] = (f(k), k)
        return m[key][0]
    return g


def exists_forall(E, v0, k, c, conj):
    """v0 and (forall j<k. c(j)), or v0 or (exists j<k. c(j))"""
    b = E.fresh("bool", "acc")
    w = E.fresh("int", "wit")
    E.index(w)
    rng = And(le(0, w), lt(w, k))
    if conj:
        E.forall(lambda j: Implies(And(b, le(0, j), lt(j, k)), c(j)))
        E.fact(Or(b, And(rng, Not(c(w)))))
        return simp(And(v0, b))
    E.forall(lambda j: Implies(And(Not(b), le(0, j), lt(j, k)), Not(c(j))))
    E.fact(Or(Not(b), And(rng, c(w))))
    return simp(Or(v0, b))


def int_sum(E, d, kg, k):
    """sum of an integer term: integer-valued uninterpreted partial sums with their recurrence at the used indices"""
    import hashlib
    key = z3.substitute(Z(d), (kg, z3.Int("kk!"))).sexpr()
    f = z3.Function("IS!" + hashlib.md5(key.encode()).hexdigest()[:10], z3.IntSort(), z3.IntSort())
    name = f.name()
    if name not in E.memo:
        E.memo[name] = (f, d, kg)
        E.fact(f(0) == 0)
        E.forall(lambda j: Implies(le(0, j), f(I(j) + 1) == f(I(j)) + I(subst_k(E, d, kg, j))))
        # monotone if the terms are non-negative at an arbitrary index
        q = E.fresh("int", "q")
        s = z3.Solver()
        s.set("timeout", 1000)
        for a in E.pc:
            s.add(a)
        dq = I(subst_k(E, d, kg, q))
        s.add(dq < 0)
        if s.check() == z3.unsat:
            E.pairfacts.append(lambda a, b: Implies(And(le(0, a), le(a, b)), le(f(I(a)), f(I(b)))))
    E.index(k)
    return f(I(k))


def peek(E, v, k):
    """v[k] without registering k for instantiation"""
    n, seen = len(E.idx), E.idxset
    E.idxset = set(seen)
    E.noinst += 1
    try:
        r = v.get(simp(k))
        if isinstance(r, Struct) and r.lazy is not None:
            for f in E.prog.fields(r.cls):
                r.get(f[1]["name"] if isinstance(f, tuple) else f)
    finally:
        E.noinst -= 1
    del E.idx[n:]
    E.idxset = seen
    return r


def isum(E, n, fn):
    """the sum of the integers fn(0), ..., fn(n-1), as the sum loops compute it"""
    kg = E.fresh("int", "it")
    return int_sum(E, I(fn(kg)), kg, n)


def scalar_leaves(v):
    if isscalar(v):
        return [v]
    if isinstance(v, Ptr):
        return [v.a]
    if isinstance(v, Struct) and v.lazy is None:
        r = []
        for k in sorted(v.f):
            x = scalar_leaves(v.f[k])
            if x is None:
                return None
            r += x
        return r
    if isinstance(v, Struct) and v.cls:
        return None
    if isinstance(v, Opaque):
        return []
    return None


def map_leaves(v, f):
    if isscalar(v):
        return f(v)
    if isinstance(v, Ptr):
        return Ptr(f(v.a), v.cls)
    if isinstance(v, Struct):
        return Struct(v.cls, {k: map_leaves(x, f) for k, x in v.f.items()})
    return v


# ------------------------------------------------------------------ algorithms on iterator ranges
def search(E, a, b, pred):
    """std::find_if"""
    n = simp(sub(b.k, a.k))
    lv = a.lv

    class Found(Exception):
        pass
    res = {}

    def once(k):
        kk = simp(add(a.k, k))
        E.index(kk)
        if E.branch(N.B_(E, pred(N.settle(E, lv.step("ix", kk))))):
            res["k"] = kk
            return "break"
        return "next"
    res["k"] = None
    if counted(E, {"k": "alg"}, n, once):
        return Iter(lv, res["k"], a.rev)
    return Iter(lv, b.k, a.rev)


def each(E, a, b, f):
    n = simp(sub(b.k, a.k))
    lv = a.lv

    def once(k):
        kk = simp(add(a.k, k))
        E.index(kk)
        f(N.settle(E, lv.step("ix", kk)))
        return "next"
    counted(E, {"k": "alg"}, n, once)
