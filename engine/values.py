"""Symbolic values. Scalars are Python bool/int/Fraction or z3 terms (Int for integers, enumerations and addresses,
Bool, Real for floating point). Aggregates are immutable Python objects; elements of sequences and matrices are
closures from indices to scalars, so that nothing is bounded."""
from fractions import Fraction
import z3


class Unsupported(Exception):
    """the construct is out of the verifier's reach -> undecided, never a violation"""


# ------------------------------------------------------------------ scalars
def isz(x):
    return isinstance(x, z3.ExprRef)


def isscalar(x):
    return isz(x) or isinstance(x, (bool, int, Fraction))


def simp(x):
    if not isz(x):
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x


def B(x):
    """to z3 Bool"""
    if isz(x):
        if x.sort() == z3.BoolSort():
            return x
        return x != 0
    return z3.BoolVal(bool(x))


def I(x):
    if isz(x):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return z3.IntVal(x.numerator)
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Unsupported("not an integer: %r" % (x,))


def R(x):
    if isz(x):
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        if x.sort() == z3.IntSort():
            return z3.ToReal(x)
        return x
    if isinstance(x, bool):
        x = int(x)
    return z3.RealVal(str(Fraction(x)))


def Z(x):
    """to some z3 term"""
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return R(x)


def And(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if not isz(x):
            if not x:
                return False
            continue
        r.append(B(x))
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if not isz(x):
            if x:
                return True
            continue
        r.append(B(x))
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    return z3.Not(B(x)) if isz(x) else (not x)


def Implies(a, b):
    return Or(Not(a), b)


def _num(a):
    return int(a) if isinstance(a, bool) else a


def _prep(a, b):
    a, b = _num(a), _num(b)
    if isz(a) and z3.is_bool(a):
        a = I(a)
    if isz(b) and z3.is_bool(b):
        b = I(b)
    if isz(a) or isz(b):
        real = (isz(a) and a.sort() == z3.RealSort()) or (isz(b) and b.sort() == z3.RealSort()) or \
            isinstance(a, Fraction) or isinstance(b, Fraction)
        if real:
            return R(a), R(b)
        return I(a), I(b)
    return a, b


def add(a, b):
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    a, b = _prep(a, b)
    return a + b


def sub(a, b):
    if not isz(b) and b == 0:
        return a
    a, b = _prep(a, b)
    return a - b


def mul(a, b):
    if not isz(a):
        if a == 0:
            return a if not isz(b) or b.sort() != z3.RealSort() else Fraction(0)
        if a == 1 and isz(b):
            return b
    if not isz(b):
        if b == 0:
            return b if not isz(a) or a.sort() != z3.RealSort() else Fraction(0)
        if b == 1 and isz(a):
            return a
    a, b = _prep(a, b)
    return a * b


def neg(a):
    return -_num(a) if not isz(a) else -a


def rdiv(a, b):
    if not isz(a) and not isz(b):
        return Fraction(a) / Fraction(b)
    return R(a) / R(b)


def eq(a, b):
    if isz(a) or isz(b):
        if (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
            if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and isz(b) and z3.is_bool(a) and z3.is_bool(b)):
                return B(a) == B(b)
        a, b = _prep(a, b)
        if a.eq(b):
            return True
        return a == b
    return a == b


def ne(a, b):
    return Not(eq(a, b))


def lt(a, b):
    a, b = _prep(a, b)
    return a < b


def le(a, b):
    a, b = _prep(a, b)
    return a <= b


def ite(c, a, b):
    if not isz(c):
        return a if c else b
    if isscalar(a) and isscalar(b):
        if a is b or (not isz(a) and not isz(b) and a == b and type(a) == type(b)):
            return a
        if isz(a) and isz(b) and a.eq(b):
            return a
        if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a) and isz(b) and z3.is_bool(b)):
            return z3.If(B(c), B(a), B(b))
        a, b = _prep(a, b)
        return z3.If(B(c), Z(a), Z(b))
    return merge(c, a, b)


# ------------------------------------------------------------------ aggregates
class Struct:
    __slots__ = ("cls", "f", "lazy")

    def __init__(self, cls, f=None, lazy=None):
        self.cls = cls
        self.f = f if f is not None else {}
        self.lazy = lazy

    def get(self, n):
        if n not in self.f:
            if self.lazy is None:
                raise Unsupported("no field %s in %s" % (n, self.cls))
            self.f[n] = self.lazy(n)
        return self.f[n]

    def with_(self, n, v):
        d = dict(self.f)
        d[n] = v
        return Struct(self.cls, d, self.lazy)

    def __repr__(self):
        return "%s%r" % (self.cls, self.f)


class Vec:
    """std::vector / list / array / initializer_list contents"""
    __slots__ = ("n", "get", "et", "tag")

    def __init__(self, n, get, et=None, tag=None):
        self.n, self.get, self.et, self.tag = n, get, et, tag

    @staticmethod
    def of(xs, et=None):
        xs = list(xs)

        def get(k):
            k = simp(k)
            if not isz(k):
                if not 0 <= k < len(xs):
                    raise Unsupported("sequence index out of range")
                return xs[k]
            if not xs:
                if et in ("unsigned long", "int", "long", "unsigned int"):      # never meaningful: out of range
                    return z3.Function("element_of_empty", z3.IntSort(), z3.IntSort())(I(k))
                raise Unsupported("read of an empty sequence")
            r = xs[-1]
            for m in range(len(xs) - 2, -1, -1):
                r = ite(eq(k, m), xs[m], r)
            return r
        return Vec(len(xs), get, et)

    def set(self, k, v):
        k = simp(k)
        g = self.get

        def get(m):
            c = simp(eq(m, k))
            if c is True:
                return v
            if c is False:
                return g(m)
            return ite(c, v, g(m))
        return Vec(self.n, get, self.et, self.tag)

    def push(self, v):
        n, g = self.n, self.get

        def get(m):
            c = simp(eq(m, n))
            if c is True:
                return v
            if c is False:
                return g(m)
            return ite(c, v, g(m))
        return Vec(simp(add(n, 1)), get, self.et, self.tag)

    def erase(self, p, cnt=1):
        g = self.get

        def get(m):
            c = simp(lt(m, p))
            if c is True:
                return g(m)
            if c is False:
                return g(simp(add(m, cnt)))
            return ite(c, g(m), g(simp(add(m, cnt))))
        return Vec(simp(sub(self.n, cnt)), get, self.et, self.tag)

    def insert(self, p, v):
        g = self.get

        def get(m):
            c = simp(lt(m, p))
            if c is True:
                return g(m)
            e = simp(eq(m, p))
            if e is True:
                return v
            if c is False and e is False:
                return g(simp(sub(m, 1)))
            return ite(c, g(m), ite(e, v, g(simp(sub(m, 1)))))
        return Vec(simp(add(self.n, 1)), get, self.et, self.tag)


class MapV:
    """std::map / unordered_map / set contents: a total function has(key), get(key); keys are scalars or pointers"""
    __slots__ = ("has", "get", "kt", "vt", "n")

    def __init__(self, has, get, kt=None, vt=None, n=None):
        self.has, self.get, self.kt, self.vt, self.n = has, get, kt, vt, n

    def put(self, k, v):
        h, g = self.has, self.get

        def has(x):
            return Or(key_eq(x, k), h(x))

        def get(x):
            c = simp(key_eq(x, k))
            if c is True:
                return v
            if c is False:
                return g(x)
            return ite(c, v, g(x))
        n = None if self.n is None else simp(add(self.n, ite(h(k), 0, 1)))
        return MapV(has, get, self.kt, self.vt, n)

    def erase(self, k):
        h = self.has
        n = None if self.n is None else simp(sub(self.n, ite(h(k), 1, 0)))
        return MapV(lambda x: And(Not(key_eq(x, k)), h(x)), self.get, self.kt, self.vt, n)


class Mat:
    """an Eigen object or expression: r x c, element closure"""
    __slots__ = ("r", "c", "get", "st", "diag", "ex")

    def __init__(self, r, c, get, st="double", diag=False):
        self.r, self.c, self.get, self.st, self.diag, self.ex = r, c, get, st, diag, None

    def at(self, i, j=0):
        return self.get(simp(i), simp(j))


class View:
    """block of a matrix lvalue: element (i,j) is element (i0+i, j0+j) (or (i0+j, j0+i) if tr) of lv"""
    __slots__ = ("lv", "i0", "j0", "r", "c", "tr", "dg")

    def __init__(self, lv, i0, j0, r, c, tr=False, dg=False):
        self.lv, self.i0, self.j0, self.r, self.c, self.tr, self.dg = lv, i0, j0, r, c, tr, dg


class MapMem:
    """Eigen::Map on raw memory: element (i,j) is cell off + i*rs + j*cs of allocation arr"""
    __slots__ = ("arr", "off", "r", "c", "rs", "cs")

    def __init__(self, arr, off, r, c, rs=1, cs=None):
        self.arr, self.off, self.r, self.c, self.rs = arr, off, r, c, rs
        self.cs = r if cs is None else cs


class Ptr:
    """pointer / smart pointer to a class object, identified by its address (0: null)"""
    __slots__ = ("a", "cls", "own")

    def __init__(self, a, cls, own=None):
        self.a, self.cls, self.own = a, cls, own

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.a, self.cls)


class PtrL:
    """pointer to an interior or local location"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class PtrD:
    """pointer into raw memory of doubles"""
    __slots__ = ("arr", "off")

    def __init__(self, arr, off):
        self.arr, self.off = arr, off


class RefVal:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Iter:
    """iterator of the sequence stored at lv (or the constant sequence vec)"""
    __slots__ = ("lv", "k", "rev")

    def __init__(self, lv, k, rev=False):
        self.lv, self.k, self.rev = lv, k, rev


class MIter:
    """iterator into a map: key, or end"""
    __slots__ = ("lv", "key", "isend")

    def __init__(self, lv, key, isend):
        self.lv, self.key, self.isend = lv, key, isend


class Fn:
    """lambda / functor: function record, captures {id: LV}, this"""
    __slots__ = ("fns", "caps", "this", "py")

    def __init__(self, fns, caps=None, this=None, py=None):
        self.fns, self.caps, self.this, self.py = fns, caps or {}, this, py


class Opaque:
    """a value whose content is irrelevant (strings, streams)"""
    __slots__ = ("t", "d")

    def __init__(self, t, d=None):
        self.t, self.d = t, d


class Uninit:
    def __repr__(self):
        return "uninit"


UNINIT = Uninit()


class LV:
    """root: ('l', n) local/temporary, ('h', addr) heap object, ('d',) raw memory; path: steps"""
    __slots__ = ("root", "path", "cls")

    def __init__(self, root, path=(), cls=None):
        self.root, self.path, self.cls = root, path, cls

    def step(self, *s):
        return LV(self.root, self.path + (s,))

    def __repr__(self):
        return "LV(%s,%s)" % (self.root, self.path)


def key_eq(a, b):
    if isinstance(a, Ptr):
        a = a.a
    if isinstance(b, Ptr):
        b = b.a
    if isscalar(a) and isscalar(b):
        return eq(a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        return And(*[key_eq(a.get(k), b.get(k)) for k in sorted(set(a.f) | set(b.f))])
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.d is not None and b.d is not None:
            return a.d == b.d
    raise Unsupported("map key comparison %r %r" % (a, b))


def same_lv(a, b):
    if a.root[0] != b.root[0] or len(a.path) != len(b.path):
        return False
    if a.root[0] == "h":
        c = eq(a.root[1], b.root[1])
    else:
        c = a.root == b.root
    for x, y in zip(a.path, b.path):
        if x[0] != y[0]:
            return False
        for u, v in zip(x[1:], y[1:]):
            if isscalar(u) and isscalar(v):
                c = And(c, eq(u, v))
            else:
                c = And(c, u == v)
    return c


def merge(c, a, b):
    """if c then a else b"""
    if a is b:
        return a
    if isscalar(a) and isscalar(b):
        return ite(c, a, b)
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        return b if isinstance(a, Uninit) else a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        own = None
        if a.own is not None or b.own is not None:
            own = ite(c, a.a if a.own is None else a.own, b.a if b.own is None else b.own)
        return Ptr(ite(c, a.a, b.a), a.cls if a.cls == b.cls else None, own)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.lazy is None and b.lazy is None:
            return Struct(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f if k in b.f})
        return Struct(a.cls, {}, lambda n: merge(c, a.get(n), b.get(n)))
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(ite(c, a.n, b.n), lambda k: merge(c, a.get(k), b.get(k)), a.et, a.tag)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(ite(c, a.r, b.r), ite(c, a.c, b.c), lambda i, j: ite(c, a.get(i, j), b.get(i, j)), a.st)
    if isinstance(a, MapMem) and isinstance(b, MapMem):
        return MapMem(ite(c, a.arr, b.arr), ite(c, a.off, b.off), ite(c, a.r, b.r), ite(c, a.c, b.c),
                      ite(c, a.rs, b.rs), ite(c, a.cs, b.cs))
    if isinstance(a, MapV) and isinstance(b, MapV):
        return MapV(lambda k: ite(c, B(a.has(k)), B(b.has(k))), lambda k: merge(c, a.get(k), b.get(k)), a.kt, a.vt,
                    None if a.n is None or b.n is None else ite(c, a.n, b.n))
    if isinstance(a, PtrD) and isinstance(b, PtrD):
        return PtrD(ite(c, a.arr, b.arr), ite(c, a.off, b.off))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return Opaque(a.t) if a.d != b.d else a
    if isinstance(a, (PtrL, RefVal)) and type(a) == type(b) and same_lv(a.lv, b.lv) is True:
        return a
    if isinstance(a, View) and isinstance(b, View) and same_lv(a.lv, b.lv) is True and a.tr == b.tr and a.dg == b.dg:
        return View(a.lv, ite(c, a.i0, b.i0), ite(c, a.j0, b.j0), ite(c, a.r, b.r), ite(c, a.c, b.c), a.tr, a.dg)
    if isinstance(a, Iter) and isinstance(b, Iter) and same_lv(a.lv, b.lv) is True:
        return Iter(a.lv, ite(c, a.k, b.k), a.rev)
    raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))
