"""C02: counting of ranges."""
from engine.run import unit
from values import *
import lib
import loops
TUS = ["src/internal/RangeCounting.cpp"]
DRIVER = "C02.cpp"
SOURCES = ["internal/RangeCounting.cpp"]
DRIVER_S = 10
BUDGET = 200
BOUNDED = "whole histories end to end (random additions, removals and queries against a plain count per number), and the interplay of several "\
          "countings; each step of a history is proved for every content allowed by the class invariant"
ASSUMPTIONS = ["ranges have a dimension of zero or more (asserted by Range's constructor)",
               "numbers are mathematical integers: no overflow of start + dim",
               "isValid, called by assertions only, is taken as true: what it checks is the class invariant proved here"]
TRUSTED = ["std::list (iterators follow their element), std::vector"]
R = "tvm::internal::RangeCounting"
LM = R + "::Limit"
LOW, CUT, UP = -1, 0, 1


def i_(e):
    return e.get("i_")


def t_(e):
    return e.get("type_")


def lt_(a, b):
    return Or(lt(i_(a), i_(b)), And(eq(i_(a), i_(b)), lt(t_(a), t_(b))))


def le_(a, b):
    return Or(lt(i_(a), i_(b)), And(eq(i_(a), i_(b)), le(t_(a), t_(b))))


def weight(e, x):
    """contribution of a limit to the count of the number x"""
    return ite(le(i_(e), x), sub(0, t_(e)), 0)


def limit(E, name="val", kinds=(LOW, UP)):
    v = E.sym(LM, name)
    i, t = E.input(name + ".i", i_(v)), E.input(name + ".type", t_(v))
    E.assume(Or(*[eq(t, k) for k in kinds]))
    return v


def follows(E, v, k):
    """rules (1) to (3) between the limits k and k+1"""
    a, b = loops.peek(E, v, k), loops.peek(E, v, add(k, 1))
    return Implies(And(le(0, k), lt(add(k, 1), v.n)), And(
        Or(lt_(a, b), And(eq(i_(a), i_(b)), eq(t_(a), t_(b)), ne(t_(a), CUT))),
        Not(And(eq(i_(a), i_(b)), eq(t_(a), LOW), eq(t_(b), UP)))))


def three(E, v, k):
    """rule (4)"""
    a, b, c = [loops.peek(E, v, add(k, q)) for q in range(3)]
    return Implies(And(le(0, k), lt(add(k, 2), v.n)),
                   Not(And(eq(i_(a), i_(b)), eq(i_(a), i_(c)), eq(t_(a), LOW), eq(t_(b), CUT), eq(t_(c), UP))))


def every_k(E, fn):
    """fn(k) for every index k in use"""
    E.forall(loops.template(E, lambda k: B(fn(k)), 1))


def prefix(E, v, f, name):
    """S with S(k) = f(v[0]) + ... + f(v[k-1])"""
    S = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.IntSort())
    E.fact(S(0) == 0)
    every_k(E, lambda k: Implies(And(le(0, k), lt(k, v.n)), And(eq(S(I(k) + 1), add(S(I(k)), f(loops.peek(E, v, k)))),
                                                                le(LOW, t_(loops.peek(E, v, k))), le(t_(loops.peek(E, v, k)), UP))))
    return S


def induction(E, label, P, lo, hi, also=lambda k: []):
    """P(k) for all lo <= k <= hi, by induction (obligations), then a fact at every index"""
    E.index(lo)
    E.prove(label + ": base", Implies(le(lo, hi), P(lo)))
    if E.choose("step of " + label):
        k = E.skolem("k")
        E.index(simp(add(k, 1)))
        for e in also(k):
            E.index(simp(e))
        E.assume(And(le(lo, k), lt(k, hi), P(k)))
        E.prove(label + ": step", P(simp(add(k, 1))))
        from sym import PathEnd
        raise PathEnd()
    every_k(E, lambda k: Implies(And(le(lo, k), le(k, hi)), P(k)))
    E.index(hi)


@unit("Limit: comparisons", [LM + "::operator" + o for o in ("==", "<", "<=", ">", ">=")])
def cmp(E):
    a, b = limit(E, "a", (LOW, CUT, UP)), limit(E, "b", (LOW, CUT, UP))
    la, lb = E.local(a, LM), E.local(b, LM)
    r = {o: B(E.call(LM + "::operator" + o, la, [lb])) for o in ("==", "<", "<=", ">", ">=")}
    same = And(eq(i_(a), i_(b)), eq(t_(a), t_(b)))
    E.prove("== is equality", eq(r["=="], same))
    E.prove("< is the lexicographic order, + before | before -", eq(r["<"], lt_(a, b)))
    E.prove("<= is < or ==", eq(r["<="], Or(r["<"], same)))
    E.prove("> is not <=", eq(r[">"], Not(r["<="])))
    E.prove(">= is not <", eq(r[">="], Not(r["<"])))


def idx(E, *ks):
    for k in ks:
        E.index(simp(k))


LIST = "std::list<%s>" % LM


class St:
    """a list of limits: the limits, their number, the depth before each, the count of x"""

    def __init__(s, E, v, x):
        s.v, s.n = v, simp(v.n)
        s.D = prefix(E, v, lambda e: sub(0, t_(e)), "depth")
        s.S = prefix(E, v, lambda e: weight(e, x), "count")
        s.at = lambda k: loops.peek(E, v, simp(k))
        s.fol, s.three = (lambda k: follows(E, v, k)), (lambda k: three(E, v, k))

    def d(s, k):
        return s.D(I(simp(k)))

    def inv(s):
        """the class invariant, as (label, ground or fn(k))"""
        return [("rules (1) to (3)", s.fol), ("rule (4)", s.three),
                ("depth never negative", lambda k: Implies(And(le(0, k), le(k, s.n)), le(0, s.d(k)))),
                ("rule (6)", lambda k: Implies(And(le(0, k), lt(k, s.n), eq(t_(s.at(k)), CUT)), lt(0, s.d(k)))),
                ("rule (5), closed at the end", eq(s.d(s.n), 0))]


def insert_pre(a, val, p, low, six):
    r = [("rules (1) to (3)", a.fol), ("rule (4)", a.three),
         ("depth before", lambda k: Implies(And(le(0, k), le(k, p)), le(0, a.d(k))))]
    if six:
        r.append(("no cut at depth 0 before", lambda k: Implies(And(le(0, k), lt(k, p), eq(t_(a.at(k)), CUT)), lt(0, a.d(k)))))
    if low:
        r.append(("position", And(le(0, p), lt(p, a.n), lt_(val, a.at(p)))))
        r.append(("those before", lambda k: Implies(And(le(0, k), lt(k, p)), le_(a.at(k), val))))
    else:
        cutv = Struct(LM, {"i_": i_(val), "type_": CUT})
        r.append(("position", And(lt(0, p), le(p, a.n), Implies(lt(p, a.n), lt_(cutv, a.at(p))), lt(0, a.d(p)))))
        r.append(("those before", lambda k: Implies(And(le(0, k), lt(k, p)), le_(a.at(k), cutv))))
        if six:     # in add, the lower limit of the same range comes before
            r.append(("open before", lambda k: Implies(And(le(0, k), lt(k, p), eq(i_(a.at(k)), i_(val))), lt(0, a.d(k)))))
    return r


def insert_post(a, b, val, x, p, q, c, depth, low, six):
    """what insert guarantees: limits a before, b after, of c more limits, position q"""
    ty = t_(val)
    r = [("position in the list", And(le(0, q), le(q, b.n), Implies(not low, eq(q, add(p, c))), le(p, add(sub(q, c), 0)), le(-2, c), le(c, 1))),
         ("the limits from there on are the same", lambda k: Implies(And(le(q, k), lt(k, b.n)), And(
             eq(i_(b.at(k)), i_(a.at(sub(k, c)))), eq(t_(b.at(k)), t_(a.at(sub(k, c))))))),
         ("the limits before do not come after the value", lambda k: Implies(And(le(0, k), lt(k, q)), le(i_(b.at(k)), i_(val)))),
         ("nor those which were there", lambda k: Implies(And(le(0, k), lt(k, sub(q, c))), le(i_(a.at(k)), i_(val)))),
         ("the limit there comes after the value", Implies(And(low, lt(q, b.n)), lt_(val, b.at(q)))),
         ("rules (1) to (3) preserved", b.fol),
         ("rule (4) preserved", b.three),
         ("depth at the position", eq(depth, b.d(q))),
         ("not negative up to the position", lambda k: Implies(And(le(0, k), le(k, q)), le(0, b.d(k)))),
         ("depth after", lambda k: Implies(And(le(q, k), le(k, b.n)), eq(b.d(k), sub(a.d(sub(k, c)), ty)))),
         ("the count of every number changes by the one of the limit", eq(b.S(I(b.n)), add(a.S(I(a.n)), weight(val, x))))]
    if six:
        r.append(("no cut at depth 0 before the position", lambda k: Implies(And(le(0, k), lt(k, q), eq(t_(b.at(k)), CUT)), lt(0, b.d(k)))))
    return r


def move_post(a, val, k0, cut, p, depth, hit, w):
    """moveToFirstAfter from k0 stops at p; w: a limit on the way after which the depth is equal to the cut"""
    return [("the first that comes after the value, or the end", And(le(k0, p), le(p, a.n), Implies(lt(p, a.n), lt_(val, a.at(p))))),
            ("what was passed does not come after the value", lambda j: Implies(And(le(k0, j), lt(j, p)), le_(a.at(j), val))),
            ("the depth there", eq(depth, a.d(p))),
            ("never below the cut on the way", lambda j: Implies(And(le(k0, j), lt(j, p)), le(cut, a.d(add(j, 1))))),
            ("true only when the depth was equal to the cut on the way", Implies(hit, And(le(k0, w), lt(w, p), eq(a.d(add(w, 1)), cut)))),
            ("true when the depth was equal to the cut on the way", lambda j: Implies(And(le(k0, j), lt(j, p), eq(a.d(add(j, 1)), cut)), hit))]


def move_refused(a, val, k0, cut, p):
    return [("refused only when the depth falls below the cut at a limit that does not come after the value", And(
                le(k0, p), lt(p, a.n), le_(a.at(p), val), lt(a.d(add(p, 1)), cut))),
            ("what was passed does not come after the value", lambda j: Implies(And(le(k0, j), lt(j, p)), le_(a.at(j), val))),
            ("never below the cut before", lambda j: Implies(And(le(k0, j), lt(j, p)), le(cut, a.d(add(j, 1)))))]


def take(E, conds):
    for l, c in conds:
        if callable(c):
            every_k(E, c)
        else:
            E.assume(c)


def need(E, conds, k, pre=""):
    for l, c in conds:
        E.prove(pre + l, c(k) if callable(c) else c)


@unit("RangeCounting::moveToFirstAfter", [R + "::moveToFirstAfter"])
def move(E):
    o = E.obj(R, "counting")
    v = E.fld(o, "limits_")
    a = St(E, v, 0)
    E.input("limits", a.n)
    val = limit(E, "val", (LOW, CUT, UP))
    k0, cut = E.input("from", E.fresh("int", "from")), E.input("depthCut", E.fresh("int", "cut"))
    E.assume(And(le(0, k0), le(k0, a.n)))
    lv = E.fld_lv(o, "limits_")
    it, depth = E.local(Iter(lv, k0)), E.local(a.d(k0))
    E.index(k0)
    at = lambda: E.read(it).k
    last = z3.Function("last!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())    # the last limit on the way after which the depth is the cut
    E.fact(last(I(k0)) == I(sub(k0, 1)))
    E.forall(lambda k: Implies(And(le(k0, k), lt(k, a.n)), eq(last(I(k) + 1), ite(eq(a.d(add(k, 1)), cut), k, last(I(k))))))
    bools = lambda E: [E.read(l) for i, l in E.env.items() if i != "frame" and isinstance(l, LV) and l.root[0] == "l" and not l.path
                       and (isinstance(E.store.get(l.root), bool) or (isz(E.store.get(l.root)) and z3.is_bool(E.store.get(l.root))))]
    hit = lambda E: And(len(bools(E)) == 1, bools(E)[0])
    E.loopinv[R + "::moveToFirstAfter"] = loops.While(
        ("position", lambda E, L: And(le(k0, at()), le(at(), a.n))),
        ("depth", lambda E, L: eq(E.read(depth), a.d(at()))),
        ("hit", lambda E, L: And(eq(hit(E), le(k0, last(I(at())))), Implies(hit(E), And(lt(last(I(at())), at()), eq(a.d(add(last(I(at())), 1)), cut))))),
        ("passed", lambda E, L, j: Implies(And(le(k0, j), lt(j, at())), And(
            le_(a.at(j), val), le(cut, a.d(add(j, 1))), Implies(eq(a.d(add(j, 1)), cut), hit(E)))), "all"),
        measure=lambda E, L: sub(a.n, at()))
    r = E.call_x(R + "::moveToFirstAfter", o, [E.local(val, LM), it, depth, cut])
    j = E.skolem("j")
    p = at()
    E.index(p)
    if r[0] == "throw":
        need(E, move_refused(a, val, k0, cut, p), j)
    else:
        need(E, move_post(a, val, k0, cut, p, E.read(depth), B(r[1]), last(I(p))), j)


@unit("RangeCounting::insert", [R + "::insert"], limit=4000)
def insert(E):
    low = E.choose("lower")
    six = E.choose("no cut at depth 0 before")
    o = E.obj(R, "counting")
    E.stubs[R + "::isValid"] = lambda E, this, a, fn: True
    val = limit(E, "val", (LOW,) if low else (UP,))
    p = E.input("at", E.fresh("int", "p"))
    x = E.input("x", E.fresh("int", "x"))
    v0 = E.fld(o, "limits_")
    E.input("limits", v0.n)
    a = St(E, v0, x)
    take(E, insert_pre(a, val, p, low, six))
    n = a.n
    idx(E, 0, n, p, *[add(p, q) for q in (-3, -2, -1, 1, 2)])
    lv = E.fld_lv(o, "limits_")
    it, depth = E.local(Iter(lv, p)), E.local(a.d(p))
    p2 = E.fresh("int", "p2")
    other = E.local(Iter(lv, p2))
    E.call(R + "::insert", o, [E.local(val, LM), it, depth])
    b = St(E, E.fld(o, "limits_"), x)
    c = simp(sub(b.n, n))
    q = simp(E.read(it).k)
    idx(E, q, sub(q, 1), add(q, 1), b.n)
    k = E.skolem("k")
    idx(E, *[add(k, d) for d in (-2, -1, 1, 2, 3)])
    idx(E, *[sub(add(k, d), c) for d in (-1, 0, 1, 2)])
    lo = ite(le(2, p), sub(p, 2), 0)
    idx(E, lo, *[add(lo, d) for d in range(1, 5)])
    idx(E, sub(q, c), *[add(q, d) for d in (-2, -1)])
    E.prove("other iterators follow", Implies(Or(lt(p, p2) if low else le(p, p2)) if not low else False, eq(E.read(other).k, add(p2, c))))
    m = b.n
    induction(E, "before the change", lambda j: And(eq(b.d(j), a.d(j)), eq(b.S(I(j)), a.S(I(j)))), 0, ite(le(lo, m), lo, m))
    post = insert_post(a, b, val, x, p, q, c, E.read(depth), low, six)
    need(E, [z for z in post if z[0] not in ("depth after", "the count of every number changes by the one of the limit")], k)
    E.prove("depth moved by the limit", eq(b.d(q), sub(a.d(sub(q, c)), t_(val))))
    induction(E, "after the change", lambda j: And(eq(b.d(j), sub(a.d(sub(j, c)), t_(val))), eq(b.S(I(j)), add(a.S(I(simp(sub(j, c)))), weight(val, x)))), q, m, lambda k: [sub(k, c), sub(add(k, 1), c)])
    need(E, [z for z in post if z[0] in ("depth after", "the count of every number changes by the one of the limit")], k)


class Counting:
    """a counting with the class invariant; moveToFirstAfter and insert by their contracts"""

    def __init__(s, E, six_kept=True, pre=True):
        s.pre = pre
        s.E = E
        s.o = E.obj(R, "counting")
        s.x = E.input("x", E.fresh("int", "x"))
        s.lists, s.moves = [], []
        v = E.fld(s.o, "limits_")
        E.input("limits", v.n)
        s.a = St(E, v, s.x)
        s.lists.append(s.a)
        take(E, s.a.inv())
        idx(E, 0, 1, s.a.n, sub(s.a.n, 1))
        s.start, s.dim = E.input("start", E.fresh("int", "start")), E.input("dim", E.fresh("int", "dim"))
        E.assume(le(0, s.dim))
        s.end = add(s.start, s.dim)
        s.r0 = {f: B(E.fld(s.o, f)) for f in ("recompute_", "recomputeSplit_")}
        E.stubs[R + "::isValid"] = lambda E, this, a, fn: True
        E.stubs[R + "::moveToFirstAfter"] = s.move
        E.stubs[R + "::insert"] = s.insert
        s.six = six_kept
        s.before_scan = None

    def arg(s):
        return s.E.local(Struct("tvm::Range", {"start": s.start, "dim": s.dim}), "tvm::Range")

    def same_place(s, it, what):
        s.E.prove(what + ": iterator on the limits", lib.same_place(it.lv, s.E.fld_lv(s.o, "limits_")))

    def move(s, E, this, args, fn):
        a = s.lists[-1]
        val, it, depth = lib.load(E, args[0]), E.read(args[1]), E.read(args[2])
        cut = lib.load(E, args[3]) if len(args) > 3 else 0
        k0 = it.k
        idx(E, k0)
        E.prove("moveToFirstAfter: precondition", And(le(0, k0), le(k0, a.n), eq(depth, a.d(k0))))
        p = E.fresh("int", "p")
        idx(E, *s.around(E, p), *s.around(E, sub(p, 1)))
        E.write(args[1], Iter(it.lv, p))
        if E.choose("moveToFirstAfter refuses"):
            take(E, move_refused(a, val, k0, cut, p))
            s.moves.append((k0, p, None, None))
            from sym import ThrowX
            raise ThrowX("std::runtime_error")
        hit, w, d = E.fresh("bool", "hit"), E.fresh("int", "w"), E.fresh("int", "depth")
        idx(E, *s.around(E, w))
        E.write(args[2], d)
        take(E, move_post(a, val, k0, cut, p, d, B(hit), w))
        s.moves.append((k0, p, hit, w))
        return hit

    def insert(s, E, this, args, fn):
        a = s.lists[-1]
        val, it, depth = lib.load(E, args[0]), E.read(args[1]), E.read(args[2])
        p = it.k
        low = E.branch(eq(t_(val), LOW))
        idx(E, p, sub(p, 1), add(p, 1))
        j = E.skolem("j")
        idx(E, *s.around(E, j))
        if s.pre:
          E.prove("insert: depth", eq(depth, a.d(p)))
          need(E, insert_pre(a, val, p, low, s.six), j, "insert, precondition: ")
        w = E.sym(LIST, "limits%d" % len(s.lists))
        b = St(E, w, s.x)
        q, c = E.fresh("int", "q"), sub(b.n, a.n)
        d = E.fresh("int", "depth")
        E.write(E.fld_lv(s.o, "limits_"), w)
        for root, v in list(E.store.items()):
            if isinstance(v, Iter) and isinstance(v.lv, LV) and lib.same_place(v.lv, E.fld_lv(s.o, "limits_")):
                E.store[root] = Iter(v.lv, ite(And(not low, le(p, v.k)), simp(add(v.k, c)), lib.DANGLING), v.rev)
        E.write(args[1], Iter(it.lv, q))
        E.write(args[2], d)
        b.q, b.c = q, c
        s.lists.append(b)
        if len(s.lists) == 3 and s.before_scan:
            s.before_scan()
        idx(E, q, sub(q, 1), add(q, 1), b.n, sub(q, c), sub(sub(q, c), 1), 0, sub(b.n, 1))
        take(E, insert_post(a, b, val, s.x, p, q, c, d, low, s.six))
        return None

    def around(s, E, k):
        """k, and its place in the earlier lists"""
        r, ks = [k, add(k, 1), add(k, 2)], k
        for b in reversed(s.lists[1:]):
            ks = sub(ks, b.c)
            r += [ks, add(ks, 1), add(ks, 2), sub(ks, 1)]
        return r

    def now(s):
        return s.lists[-1]

    def place(s, x, S):
        """the first limit of the initial list beyond x; the count of x is the depth there (lemma proved in its own unit)"""
        E, a = s.E, s.a
        px = E.fresh("int", "px")
        idx(E, px, sub(px, 1), add(px, 1))
        E.assume(And(le(0, px), le(px, a.n), Implies(lt(px, a.n), lt(x, i_(a.at(px))))))
        every_k(E, lambda k: Implies(And(le(0, k), lt(k, px)), le(i_(a.at(k)), x)))
        every_k(E, lambda k: Implies(And(le(px, k), lt(k, a.n)), lt(x, i_(a.at(k)))))
        E.fact(eq(S(I(a.n)), a.d(px)))
        return px


@unit("lemma: the count of a number is the depth at its place", [])
def place_(E):
    s = Counting(E)
    a, x, S = s.a, s.x, s.a.S
    px = E.fresh("int", "px")
    idx(E, px, sub(px, 1), add(px, 1))
    E.assume(And(le(0, px), le(px, a.n), Implies(lt(px, a.n), lt(x, i_(a.at(px))))))
    every_k(E, lambda k: Implies(And(le(0, k), lt(k, px)), le(i_(a.at(k)), x)))
    induction(E, "count before the place", lambda k: eq(S(I(k)), a.d(k)), 0, px)
    induction(E, "order beyond the place", lambda k: Implies(lt(k, a.n), lt(x, i_(a.at(k)))), px, a.n)
    induction(E, "count beyond the place", lambda k: eq(S(I(k)), S(I(px))), px, a.n)
    E.prove("the count is the depth at the place", eq(S(I(a.n)), a.d(px)))


@unit("RangeCounting::add", [R + "::add", R + "::recompute"], limit=4000)
def add_(E):
    s = Counting(E)
    a = s.a
    r = E.call_x(R + "::add", s.o, [s.arg()])
    E.prove("not refused", r[0] == "ret")
    if r[0] != "ret":
        return
    ret = B(r[1])
    v = E.fld(s.o, "limits_")
    if E.must(eq(s.dim, 0)):
        E.prove("nothing added: content as before", v is a.v or And(eq(v.n, a.n)))
        E.prove("nothing added: no change", And(Not(ret), *[eq(B(E.fld(s.o, f)), s.r0[f]) for f in s.r0]))
        return
    b = s.now()
    if v is not b.v:        # appended by add itself
        b = St(E, v, s.x)
        b.c = sub(b.n, a.n)
        b.q = b.n
        idx(E, b.n, sub(b.n, 1), sub(b.n, 2), a.n, add(a.n, 1))
        induction(E, "appended", lambda j: And(eq(b.d(j), a.d(j)), eq(b.S(I(j)), a.S(I(j)))), 0, a.n)
        idx(E, sub(a.n, 1))
    k = E.skolem("k")
    idx(E, *s.around(E, k))
    need(E, b.inv(), k, "after: ")
    E.prove("every number is counted once more when it is in the range", eq(
        b.S(I(b.n)), add(a.S(I(a.n)), ite(And(le(s.start, s.x), lt(s.x, s.end)), 1, 0))))
    E.prove("the split output is to be computed again", B(E.fld(s.o, "recomputeSplit_")))
    E.prove("the output is to be computed again after a change", eq(B(E.fld(s.o, "recompute_")), Or(s.r0["recompute_"], ret)))


@unit("RangeCounting::add: the change reported", [R + "::add"], limit=4000)
def add_change(E):
    """add returns true exactly when a number of the range was not covered before"""
    s = Counting(E, pre=False)
    a = s.a
    E.assume(lt(0, s.dim))
    r = E.call_x(R + "::add", s.o, [s.arg()])
    if r[0] != "ret":
        return
    ret = B(r[1])
    if E.choose("was not covered"):
        px = s.place(s.x, a.S)
        E.assume(And(le(s.start, s.x), lt(s.x, s.end), eq(a.S(I(a.n)), 0)))
        for b in s.lists[1:]:
            idx(E, *[add(add(px, b.c), d) for d in (-1, 0, 1)])
        E.prove("a number becomes covered: change reported", ret)
        return
    E.assume(ret)
    # a number of the range not covered before: the start, or the limit where the depth was 1 on the way
    if len(s.lists) == 1:
        x = s.start
    else:
        b = s.lists[1]
        d1 = simp(b.d(b.q))
        hit, w = s.moves[1][2], s.moves[1][3]
        x = s.start if E.branch(eq(d1, 1)) else simp(i_(b.at(w)))
        idx(E, b.q, sub(b.q, b.c), *s.around(E, w))
    T = prefix(E, a.v, lambda e: weight(e, x), "count of x")
    px = s.place(x, T)
    if len(s.lists) > 1:
        idx(E, *[sub(px, q) for q in (0, 1)], add(px, b.c), sub(add(w, 1), b.c), sub(sub(w, b.c), 1))
    E.prove("change reported: a number of the range", And(le(s.start, x), lt(x, s.end)))
    if len(s.lists) > 1:
        at = sub(b.q, b.c) if x is s.start else simp(sub(add(w, 1), b.c))
        idx(E, *[add(at, d) for d in (-2, -1, 0, 1)])
        for l, g in (("the depth was 0", eq(a.d(at), 0)), ("not before", le(at, px)), ("not after", le(px, at)), ("the place", eq(px, at)), ("the depth at the place", eq(a.d(px), 0)), ("count", eq(T(I(a.n)), a.d(px)))):
            E.prove("change reported: " + l, g)
            E.assume(g)
    else:
        for l, g in (("beyond all the limits", eq(px, a.n)), ("the depth there is 0", eq(a.d(px), 0)), ("none", eq(T(I(a.n)), a.d(px)))):
            E.prove("change reported: " + l, g)
            E.assume(g)
    E.prove("change reported: which was not covered", eq(T(I(a.n)), 0))


def scan(E, s):
    """the loop of remove that erases the cuts at depth 0, with the depths and the counts as ghost state"""
    g = {}
    field = lambda: E.fld_lv(s.o, "limits_")

    def start():
        b = s.now()
        g["D"] = E.local(Vec(add(b.n, 1), lambda k: b.d(k), "int", "depths"))
        g["S"] = E.local(Vec(add(b.n, 1), lambda k: b.S(I(simp(k))), "int", "counts"))
    s.before_scan = start
    s.ghost = g

    def erase(E, this, args, fn):
        if g and lib.same_place(this, field()):
            k = E.read(args[0]).k if isinstance(args[0], LV) else args[0].k
            idx(E, k, add(k, 1), sub(k, 1))
            for q in ("D", "S"):
                old = E.read(g[q])
                E.write(g[q], Vec(sub(old.n, 1), lambda j, old=old: ite(le(j, k), old.get(j), old.get(simp(add(j, 1)))), "int", q))
        return lib.m_seq(E, "erase", this, args, fn, None)
    E.stubs["std::list<%s, std::allocator<%s>>::erase" % (LM, LM)] = erase
    cur = lambda E: E.fld(s.o, "limits_")
    D, S = (lambda E, k: E.read(g["D"]).get(simp(k))), (lambda E, k: E.read(g["S"]).get(simp(k)))
    at, depth = (lambda E, L: L.iters[0]), (lambda E, L: L.scalars[0])

    def every(E, L, j):
        v = cur(E)
        idx(E, *s.around(E, j))
        e = loops.peek(E, v, j)
        return And(Implies(And(le(0, j), lt(j, v.n)), And(
            eq(D(E, add(j, 1)), sub(D(E, j), t_(e))), eq(S(E, add(j, 1)), add(S(E, j), weight(e, s.x))),
            Implies(And(lt(j, at(E, L)), eq(t_(e), CUT)), lt(0, D(E, j))))),
            Implies(And(le(0, j), le(j, v.n)), le(0, D(E, j))), follows(E, v, j), three(E, v, j))
    E.loopinv[R + "::remove"] = loops.While(
        ("position", lambda E, L: (idx(E, at(E, L), sub(at(E, L), 1), add(at(E, L), 1)), And(le(0, at(E, L)), le(at(E, L), cur(E).n)))[1]),
        ("depth", lambda E, L: eq(depth(E, L), D(E, at(E, L)))),
        ("ghost", lambda E, L: And(eq(E.read(g["D"]).n, add(cur(E).n, 1)), eq(E.read(g["S"]).n, add(cur(E).n, 1)), eq(D(E, 0), 0), eq(S(E, 0), 0))),
        ("depth at the end", lambda E, L: eq(D(E, cur(E).n), 0)),
        ("count at the end", lambda E, L: eq(S(E, cur(E).n), s.now().S(I(s.now().n)))),
        ("limits", every, "all"),
        measure=lambda E, L: sub(cur(E).n, at(E, L)))


@unit("RangeCounting::remove", [R + "::remove", R + "::recompute"], limit=4000)
def remove_(E):
    s = Counting(E, six_kept=False)
    a = s.a
    scan(E, s)
    r = E.call_x(R + "::remove", s.o, [s.arg()])
    v = E.fld(s.o, "limits_")
    if r[0] == "throw":
        E.prove("refused: content as before", v is a.v)
        E.prove("refused: an output which was up to date stays so", And(eq(B(E.fld(s.o, "recompute_")), s.r0["recompute_"]),
                Implies(s.r0["recomputeSplit_"], B(E.fld(s.o, "recomputeSplit_")))))
        return
    ret = B(r[1])
    if E.must(eq(s.dim, 0)):
        E.prove("nothing removed: content as before", v is a.v)
        E.prove("nothing removed: no change", And(Not(ret), *[eq(B(E.fld(s.o, f)), s.r0[f]) for f in s.r0]))
        return
    b = St(E, v, s.x)
    k = E.skolem("k")
    idx(E, k, add(k, 1), add(k, 2))
    induction(E, "depths and counts after the scan", lambda j: And(eq(b.d(j), E.read(s.ghost["D"]).get(j)), eq(b.S(I(j)), E.read(s.ghost["S"]).get(j))), 0, b.n)
    need(E, b.inv(), k, "after: ")
    E.prove("every number is counted once less when it is in the range", eq(
        b.S(I(b.n)), sub(a.S(I(a.n)), ite(And(le(s.start, s.x), lt(s.x, s.end)), 1, 0))))
    E.prove("the split output is to be computed again", B(E.fld(s.o, "recomputeSplit_")))
    E.prove("the output is to be computed again after a change", eq(B(E.fld(s.o, "recompute_")), Or(s.r0["recompute_"], ret)))


@unit("RangeCounting::remove: the change reported", [R + "::remove"], limit=4000)
def remove_change(E):
    """remove refuses exactly when a number of the range is not covered; it returns true exactly when one was covered once"""
    s = Counting(E, six_kept=False, pre=False)
    a = s.a
    E.assume(lt(0, s.dim))
    E.loopinv[R + "::remove"] = loops.While(("position", lambda E, L: And(le(0, L.iters[0]), le(L.iters[0], E.fld(s.o, "limits_").n))))
    given = E.choose("a number of the range")
    if given:
        px = s.place(s.x, a.S)
        E.assume(And(le(s.start, s.x), lt(s.x, s.end)))
    r = E.call_x(R + "::remove", s.o, [s.arg()])
    if given:
        cnt = a.S(I(a.n))
        if r[0] == "throw":
            return
        idx(E, *[add(px, d) for d in (-2, 1)])
        E.prove("not refused: the number was covered", le(1, cnt))
        E.prove("a number covered once: change reported", Implies(eq(cnt, 1), B(r[1])))
        return
    if r[0] == "throw":
        if not s.moves:
            x = ite(eq(a.n, 0), s.start, ite(Or(lt(s.start, i_(a.at(0))), le(i_(a.at(sub(a.n, 1))), s.start)), s.start, ite(le(s.end, i_(a.at(0))), s.start, sub(s.end, 1))))
        elif len(s.moves) == 1:
            x = s.start
            idx(E, s.moves[0][1])
        else:
            x = simp(i_(a.at(s.moves[1][1])))
    else:
        E.assume(B(r[1]))
        x = s.start if E.branch(eq(a.d(s.moves[0][1]), 1)) else simp(i_(a.at(s.moves[1][3])))
    T = prefix(E, a.v, lambda e: weight(e, x), "count of x")
    px = s.place(x, T)
    if r[0] == "throw":
        E.prove("refused: a number of the range is not covered", And(le(s.start, x), lt(x, s.end), eq(T(I(a.n)), 0)))
    else:
        at = s.moves[0][1] if x is s.start else simp(add(s.moves[1][3], 1))
        idx(E, *[add(at, d) for d in (-2, -1, 0, 1)])
        for l, g in (("the depth was 1", eq(a.d(at), 1)), ("in the range", And(le(s.start, x), lt(x, s.end))), ("not before", le(at, px)),
                     ("not after", le(px, at)), ("count", eq(T(I(a.n)), a.d(px)))):
            E.prove("change reported: " + l, g)
            E.assume(g)
        E.prove("change reported: a number of the range was covered once", And(le(s.start, x), lt(x, s.end), eq(T(I(a.n)), 1)))


class Output:
    """the ranges emitted, as ghost state: how many, the end of the last, whether x is in one of them"""

    def __init__(s, E, c, y=None):
        s.E, s.c = E, c
        s.cnt, s.last, s.cov = E.local(0), E.local(0), E.local(False)
        a = c.a
        s.px = c.place(c.x, a.S)
        for k in (add(s.px, 1), sub(s.px, 2)):
            E.index(k)
        s.y = y
        if y is not None:
            s.py = c.place(y, prefix(E, a.v, lambda e: weight(e, y), "count of y"))
        VR = "std::vector<tvm::Range, std::allocator<tvm::Range>>"
        for m in ("emplace_back", "push_back"):
            E.stubs[VR + "::" + m] = lambda E, this, args, fn, m=m: s.emit(E, this, args, fn, m)

    def emit(s, E, this, args, fn, m):
        if not lib.same_place(this, E.fld_lv(s.c.o, "intervals_")):
            return lib.m_seq(E, m, this, args, fn, None)
        r = lib.m_seq(E, m, this, args, fn, None)
        v = E.fld(s.c.o, "intervals_")
        e = v.get(simp(sub(v.n, 1)))
        st, en = e.get("start"), add(e.get("start"), e.get("dim"))
        x = s.c.x
        E.prove("range not empty", lt(st, en))
        if s.y is None:
            E.prove("ranges increasing and not touching", Implies(lt(0, E.read(s.cnt)), lt(E.read(s.last), st)))
        else:
            E.prove("ranges increasing and disjoint", Implies(lt(0, E.read(s.cnt)), le(E.read(s.last), st)))
            inside = lambda z: And(le(st, z), lt(z, en))
            E.prove("all the numbers of a range are counted the same", Implies(And(inside(x), inside(s.y)), eq(s.c.a.d(s.px), s.c.a.d(s.py))))
        E.write(s.cov, Or(B(E.read(s.cov)), And(le(st, x), lt(x, en))))
        E.write(s.cnt, add(E.read(s.cnt), 1))
        E.write(s.last, en)
        return r


def ranges_pre(E, c):
    both = And(Not(c.r0["recompute_"]), Not(c.r0["recomputeSplit_"]))
    E.assume(Implies(both, And(eq(c.a.n, 0), eq(E.fld(c.o, "intervals_").n, 0))))


def ranges_post(E, c, out, r):
    v = E.fld(c.o, "intervals_")
    E.prove("the output is what was computed", lib.same_place(r, E.fld_lv(c.o, "intervals_")))
    E.prove("the ranges of this call and no others", eq(v.n, E.read(out.cnt)))
    E.prove("a number is in the output exactly when it is covered", eq(B(E.read(out.cov)), lt(0, c.a.S(I(c.a.n)))))
    E.prove("content as before", E.fld(c.o, "limits_") is c.a.v)
    E.prove("nothing is to be computed again only when there is nothing", Implies(
        And(Not(B(E.fld(c.o, "recompute_"))), Not(B(E.fld(c.o, "recomputeSplit_")))), And(eq(c.a.n, 0), eq(v.n, 0))))


@unit("RangeCounting::ranges: merged", [R + "::ranges"], limit=4000)
def merged(E):
    c = Counting(E)
    a = c.a
    ranges_pre(E, c)
    out = Output(E, c)
    s = lambda L: L.iters[0]
    E.loopinv[R + "::ranges"] = loops.Ind(
        ("depth", lambda E, k, L: (idx(E, add(k, 1), sub(k, 1), sub(k, 2)), eq(L.scalars[0], a.d(k)))[1]),
        ("start of the current range", lambda E, k, L: (idx(E, s(L), add(s(L), 1), sub(s(L), 1)), And(le(0, s(L)), le(s(L), k), eq(a.d(s(L)), 0), eq(eq(s(L), k), eq(a.d(k), 0))))[1]),
        ("depth inside", lambda E, k, L, j: Implies(And(lt(s(L), j), le(j, k)), And(lt(0, a.d(j)), le(i_(a.at(s(L))), i_(a.at(sub(j, 1)))))), "all"),
        ("no closing limit where it starts", lambda E, k, L: Implies(And(lt(s(L), k), eq(i_(a.at(sub(k, 1))), i_(a.at(s(L))))), ne(t_(a.at(sub(k, 1))), UP))),
        ("covered so far", lambda E, k, L: eq(B(E.read(out.cov)), And(lt(0, a.d(out.px)), le(out.px, s(L))))),
        ("last", lambda E, k, L: And(le(0, E.read(out.cnt)), eq(E.read(out.cnt), E.fld(c.o, "intervals_").n), Implies(lt(0, E.read(out.cnt)), And(
            lt(0, s(L)), eq(E.read(out.last), i_(a.at(sub(s(L), 1)))), eq(t_(a.at(sub(s(L), 1))), UP))))))
    r = E.call(R + "::ranges", c.o, [False])
    ranges_post(E, c, out, r)


@unit("RangeCounting::ranges: split", [R + "::ranges"], limit=4000)
def split(E):
    c = Counting(E)
    a = c.a
    ranges_pre(E, c)
    y = E.input("y", E.fresh("int", "y"))
    out = Output(E, c, y)
    same = lambda j, k: And(eq(i_(a.at(j)), i_(a.at(k))), eq(t_(a.at(j)), t_(a.at(k))))

    def group(E, s, p):
        """limits s to p-1 are the same, p is another"""
        idx(E, s, p, add(p, 1), sub(p, 1), sub(p, 2), add(s, 1), sub(s, 1))
        return And(le(0, s), lt(s, p), le(p, a.n), le(0, a.d(s)), Implies(lt(p, a.n), Not(same(s, p))))

    def outer(E, s_):
        def at(L):
            # the two iterators: start of the group, first after it
            return L.iters[0], L.iters[1]
        return loops.While(
            ("group", lambda E, L: group(E, *at(L))),
            ("depth", lambda E, L: eq(L.scalars[0], a.d(at(L)[1]))),
            ("open", lambda E, L: Implies(lt(at(L)[1], a.n), lt(0, a.d(at(L)[1])))),
            ("the same limits", lambda E, L, j: Implies(And(le(at(L)[0], j), lt(j, at(L)[1])), same(at(L)[0], j)), "all"),
            ("covered so far", lambda E, L: eq(B(E.read(out.cov)), And(lt(0, a.d(out.px)), le(out.px, at(L)[0])))),
            ("last", lambda E, L: And(le(0, E.read(out.cnt)), eq(E.read(out.cnt), E.fld(c.o, "intervals_").n), Implies(
                lt(0, E.read(out.cnt)), le(E.read(out.last), i_(a.at(at(L)[0])))))),
            measure=lambda E, L: sub(a.n, at(L)[1]))

    E.loopinv[R + "::ranges"] = outer

    def inner(E, s_):
        # the loop that goes over the limits equal to the first: from there, k0, to the position of the iterator
        k0 = [l.path[-1][1] for i, l in E.env.items() if i != "frame" and isinstance(l, LV) and l.path and l.path[-1][0] == "ix"][0]
        d0 = a.d(k0)
        idx(E, k0, add(k0, 1), sub(k0, 1))
        p = lambda L: L.iters[0]
        return loops.While(
            ("position", lambda E, L: (idx(E, p(L), add(p(L), 1)), And(le(k0, p(L)), le(p(L), a.n)))[1]),
            ("depth", lambda E, L: And(eq(L.scalars[0], a.d(p(L))))),
            ("the same limits", lambda E, L, j: Implies(And(le(k0, j), lt(j, p(L))), same(k0, j)), "all"),
            measure=lambda E, L: sub(a.n, p(L)))
    E.loopinv["lambda"] = inner
    r = E.call(R + "::ranges", c.o, [True])
    ranges_post(E, c, out, r)


@unit("RangeCounting::maxCount, empty", [R + "::maxCount", R + "::empty"])
def maxc(E):
    s = Counting(E)
    a = s.a
    q = E.skolem("q")
    E.assume(And(le(0, q), le(q, a.n)))
    w = z3.Function("reached!%d" % E.fresh_id(), z3.IntSort(), z3.BoolSort())
    every_k(E, lambda k: Implies(And(le(0, k), le(k, a.n)), w(a.d(k))))
    E.loopinv[R + "::maxCount"] = loops.Ind(("depth", lambda E, k, L: (idx(E, add(k, 1)), eq(L[0], a.d(k)))[1]),
                                            ("not less than the depths so far", lambda E, k, L: And(le(0, L[1]), Implies(le(q, k), le(a.d(q), L[1])))),
                                            ("one of the depths so far", lambda E, k, L: w(I(L[1]))))
    r = E.call(R + "::maxCount", s.o)
    E.prove("not less than the count after any limit", le(a.d(q), r))
    E.prove("the count after one of the limits", w(I(r)))
    px = s.place(s.x, a.S)
    e = B(E.call(R + "::empty", s.o))
    E.prove("empty: nothing is covered", Implies(e, eq(a.S(I(a.n)), 0)))
    # not empty: the first limit opens a range, and a number is covered there
    E.prove("not empty: a depth is positive", Implies(Not(e), And(lt(0, a.n), lt(0, a.d(1)))))
