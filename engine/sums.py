"""Finite sums sum_{k<n} body(k) with symbolic n, in a canonical form:
the body is expanded into monomials, factors not depending on k are pulled out, Kronecker deltas are eliminated and each
remaining product becomes an application of an uninterpreted function of its free index terms. Two sums whose bodies are
not syntactically equal are identified by proving their bodies equal for an arbitrary index (extensionality)."""
import hashlib
from fractions import Fraction
import z3
from values import *

KAPPA = [z3.Int("kappa!%d" % i) for i in range(12)]
_kset = {k.get_id() for k in KAPPA}


def contains(t, v, memo=None):
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i]
    if t.eq(v):
        memo[i] = True
        return True
    r = any(contains(c, v, memo) for c in t.children())
    memo[i] = r
    return r


def padd(p, q, f=1):
    r = dict(p)
    for m, (at, c) in q.items():
        if m in r:
            c2 = r[m][1] + f * c
            if c2 == 0:
                del r[m]
            else:
                r[m] = (at, c2)
        else:
            r[m] = (at, f * c)
    return r


def pmul(p, q):
    r = {}
    for m1, (a1, c1) in p.items():
        for m2, (a2, c2) in q.items():
            at = list(a1) + list(a2)
            # indicators are idempotent
            seen, out = set(), []
            for x in at:
                if z3.is_app_of(x, z3.Z3_OP_ITE) and x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                out.append(x)
            out.sort(key=lambda x: x.get_id())
            k = tuple(x.get_id() for x in out)
            r = padd(r, {k: (tuple(out), c1 * c2)})
    return r


def const(c):
    return {(): ((), Fraction(c))} if c != 0 else {}


def expand(t):
    """term -> {key: (atoms, coefficient)}"""
    if not isz(t):
        return const(t if not isinstance(t, bool) else int(t))
    if z3.is_int_value(t):
        return const(t.as_long())
    if z3.is_rational_value(t):
        return const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_add(t):
        r = {}
        for c in t.children():
            r = padd(r, expand(c))
        return r
    if z3.is_sub(t):
        ch = t.children()
        r = expand(ch[0])
        for c in ch[1:]:
            r = padd(r, expand(c), -1)
        return r
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return padd({}, expand(t.arg(0)), -1)
    if z3.is_mul(t):
        r = const(1)
        for c in t.children():
            r = pmul(r, expand(c))
        return r
    if z3.is_app_of(t, z3.Z3_OP_DIV) and z3.is_rational_value(t.arg(1)):
        d = Fraction(t.arg(1).numerator_as_long(), t.arg(1).denominator_as_long())
        return padd({}, expand(t.arg(0)), 1 / d)
    if z3.is_app_of(t, z3.Z3_OP_DIV):
        inv = z3.RealVal(1) / t.arg(1)
        return pmul(expand(t.arg(0)), {(inv.get_id(),): ((inv,), Fraction(1))}) if not z3.is_rational_value(
            t.arg(0)) or t.arg(0).as_fraction() != 1 else {(t.get_id(),): ((t,), Fraction(1))}
    if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_int_value(t.arg(1)) and 0 <= t.arg(1).as_long() <= 4:
        r = const(1)
        for _ in range(t.arg(1).as_long()):
            r = pmul(r, expand(t.arg(0)))
        return r
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.arg(0), t.arg(1), t.arg(2)
        if isone(a) and iszero(b):
            return {(t.get_id(),): ((t,), Fraction(1))}
        ci = z3.If(c, z3.RealVal(1), z3.RealVal(0))
        pci = {(ci.get_id(),): ((ci,), Fraction(1))}
        eb = expand(b)
        r = padd(eb, pmul(pci, padd(expand(a), eb, -1)))
        return r
    return {(t.get_id(),): ((t,), Fraction(1))}


def isone(x):
    return (z3.is_rational_value(x) or z3.is_int_value(x)) and x.as_fraction() == 1 if z3.is_rational_value(x) else (
        z3.is_int_value(x) and x.as_long() == 1)


def iszero(x):
    if z3.is_rational_value(x):
        return x.as_fraction() == 0
    return z3.is_int_value(x) and x.as_long() == 0


def mk_sum(E, n, body):
    d = getattr(E, "sumdepth", 0)
    kap = KAPPA[d]
    E.sumdepth = d + 1
    E.solver.push()
    E.solver.add(kap >= 0, kap < I(n))
    try:
        t = body(kap)
    finally:
        E.solver.pop()
        E.sumdepth = d
    t = simp(t)
    # keep an object alive so that ids stay unique
    E.memo.setdefault("keep", []).append(t)
    poly = expand(R(t))
    res = Fraction(0)
    for key, (atoms, coef) in poly.items():
        E.memo["keep"].append(atoms)
        dep = [a for a in atoms if contains(a, kap)]
        ind = [a for a in atoms if not contains(a, kap)]
        s = prodsum(E, n, dep, kap)
        for a in ind:
            s = mul(a, s)
        res = add(res, mul(coef, s) if coef != 1 else s)
    return res


def delta_of(a, kap):
    """If(kap == e, 1, 0) -> e"""
    if z3.is_app_of(a, z3.Z3_OP_ITE) and isone(a.arg(1)) and iszero(a.arg(2)):
        c = a.arg(0)
        if z3.is_eq(c):
            l, r = c.arg(0), c.arg(1)
            if l.eq(kap) and not contains(r, kap):
                return r
            if r.eq(kap) and not contains(l, kap):
                return l
            # kap + c == e
            if l.sort() == z3.IntSort():
                e = solve_lin(l, r, kap)
                if e is not None:
                    return e
    return None


def solve_lin(l, r, kap):
    d = z3.simplify(l - r)
    p = expand(d)
    co, rest = None, z3.IntVal(0)
    for k, (at, c) in p.items():
        if any(contains(a, kap) for a in at):
            if len(at) == 1 and at[0].eq(kap) and abs(c) == 1:
                co = c
            else:
                return None
        else:
            x = z3.IntVal(1)
            for a in at:
                x = x * a
            if c.denominator != 1:
                return None
            rest = rest + int(c) * x
    if co is None:
        return None
    return z3.simplify(-rest if co == 1 else rest)


def prodsum(E, n, dep, kap):
    if not dep:
        return R(simp(ite(lt(0, n), n, 0))) if isz(n) else R(n)
    for q, a in enumerate(dep):
        e = delta_of(a, kap)
        if e is not None:
            rest = [z3.simplify(z3.substitute(x, (kap, e))) for x in dep[:q] + dep[q + 1:]]
            p = z3.RealVal(1)
            for x in rest:
                p = p * R(x)
            return ite(And(le(0, e), lt(e, n)), simp(p), Fraction(0))
    # canonical order and abstraction of the free index terms
    def absr(t, ph, memo):
        """replace maximal Int subterms without kap"""
        if t.sort() == z3.IntSort() and not contains(t, kap):
            if z3.is_int_value(t):
                return t
            for i, u in enumerate(ph):
                if u.eq(t):
                    return z3.Int("ph!%d" % i)
            ph.append(t)
            return z3.Int("ph!%d" % (len(ph) - 1))
        if t.eq(kap):
            return z3.Int("kk!")
        if t.num_args() == 0:
            return t
        ch = [absr(c, ph, memo) for c in t.children()]
        return t.decl()(*ch)
    keyed = []
    for a in dep:
        ph = []
        keyed.append((absr(a, ph, {}).sexpr(), a))
    keyed.sort(key=lambda x: (x[0], x[1].sexpr()))
    ph = []
    prod = None
    strs = []
    real = None
    for _, a in keyed:
        x = absr(a, ph, {})
        strs.append(x.sexpr())
        real = R(a) if real is None else real * R(a)
    nm = "S!" + hashlib.md5(("*".join(strs)).encode()).hexdigest()[:12]
    f = z3.Function(nm, *([z3.IntSort()] * (len(ph) + 1) + [z3.RealSort()]))
    s = f(*([I(n)] + ph))
    if s.get_id() not in E.sums:
        E.sums[s.get_id()] = (s, n, real, kap)
        E.fact(z3.Implies(I(n) <= 0, s == 0))
    return s


def sum_atoms(E, t, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return acc
    seen.add(t.get_id())
    if t.get_id() in E.sums:
        acc.append(t)
    for c in t.children():
        sum_atoms(E, c, acc, seen)
    return acc


def extensional(E, goal):
    """equalities between sums occurring in the goal whose bodies are provably equal"""
    at = sum_atoms(E, goal)
    out = []
    for x in range(len(at)):
        for y in range(x + 1, len(at)):
            s1, n1, b1, k1 = E.sums[at[x].get_id()]
            s2, n2, b2, k2 = E.sums[at[y].get_id()]
            k = E.fresh("int", "ext")
            e1 = z3.substitute(b1, (k1, k))
            e2 = z3.substitute(b2, (k2, k))
            s = z3.Solver()
            s.set("timeout", 3000)
            for a in E.pc:
                s.add(a)
            s.add(z3.Or(I(n1) != I(n2), z3.And(k >= 0, k < I(n1), e1 != e2)))
            if s.check() == z3.unsat:
                out.append(s1 == s2)
    return out
