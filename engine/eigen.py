"""Trusted model of the Eigen operations used by the code: matrices are element closures over mathematical reals."""
from fractions import Fraction
import z3
from values import *
import cxxtypes as T
from sym import PathEnd
import interp as N


class Comma:
    """m << a, b, ..."""
    __slots__ = ("lv", "k")

    def __init__(self, lv, k):
        self.lv, self.k = lv, k


class Wrap:
    """a diagonal matrix expression: vector d"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


def load(E, x):
    return N.load(E, x)


def fresh_mat(E, r, c, name="uninit"):
    f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.IntSort(), z3.RealSort())
    return Mat(r, c, lambda i, j: f(I(i), I(j)))


def as_view(E, a):
    """reference to the matrix designated by a (a location), or the expression value"""
    if isinstance(a, LV):
        v = E.read(a)
        if isinstance(v, RefVal):
            return as_view(E, v.lv)
        if isinstance(v, (View, MapMem)):
            return v
        if isinstance(v, Mat):
            return View(a, 0, 0, v.r, v.c)
        if isinstance(v, Uninit):
            raise Unsupported("reference to an uninitialised matrix")
    return a if isinstance(a, (Mat, View, MapMem)) else E.asmat(a)


def construct(E, cls, args):
    b, ta = T.tmpl(cls)
    args = [E.eigen_part(a) for a in args]
    if b == "Eigen::RealSchur" and args:
        m = E.asmat(load(E, args[0]))
        return Struct(cls, {"matrixU": fresh_mat(E, m.r, m.r), "matrixT": fresh_mat(E, m.r, m.r)})
    if b in ("Eigen::Matrix", "Eigen::Array"):
        r, c, s = E.eigen_dims(cls)
        if not args:
            return fresh_mat(E, 0 if r is None else r, 0 if c is None else c)
        vals = [load(E, a) for a in args]
        if all(isscalar(v) for v in vals):
            if r is not None and c is not None and r * c == len(vals):
                if c == 1:
                    return Vecm(vals)
                return Mat(r, c, lambda i, j: rowsel(vals, c, i, j))
            if len(vals) == 1:
                if c == 1 or r == 1:
                    return fresh_mat(E, vals[0], 1) if c == 1 else fresh_mat(E, 1, vals[0])
            if len(vals) == 2 and (r is None or c is None):
                return fresh_mat(E, vals[0], vals[1])
            raise Unsupported("matrix constructor " + cls)
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, Wrap):
                return diag_mat(v.d)
            if isinstance(v, PtrD):
                return E.asmat(MapMem(v.arr, v.off, r, c))
            if isinstance(v, Vec):
                raise Unsupported("matrix from initializer list")
            m = E.asmat(v)
            if c == 1 and not (not isz(m.c) and m.c == 1):
                E.prove("vector from a one-column expression", eq(m.c, 1), safety=True)
                return Mat(m.r, 1, m.get, m.st)
            return m
        raise Unsupported("matrix constructor " + cls)
    if b == "Eigen::Ref":
        v = as_view(E, args[0])
        if isinstance(v, Mat):
            return v
        return v
    if b == "Eigen::Map":
        p = load(E, args[0])
        if isinstance(p, Ptr) and not isz(p.a) and p.a == 0:
            r, c, _ = E.eigen_dims(cls)
            d = [load(E, a) for a in args[1:]]
            if all(not isz(x) and x == 0 for x in d if isscalar(x)):
                return View(E.local(Mat(0, 1 if c == 1 else 0, lambda i, j: Fraction(0))), 0, 0, 0, 1 if c == 1 else 0)
        if not isinstance(p, PtrD):
            raise Unsupported("Eigen::Map on %s" % type(p).__name__)
        r, c, s = E.eigen_dims(cls)
        d = [load(E, a) for a in args[1:]]
        d = [x for x in d if isscalar(x)]
        if c == 1:
            return MapMem(p.arr, p.off, r if r is not None else d[0], 1)
        return MapMem(p.arr, p.off, d[0], d[1])
    if b == "Eigen::Transpose":
        v = as_view(E, args[0])
        return transpose(E, v)
    if b in ("Eigen::Block", "Eigen::VectorBlock", "Eigen::ArrayWrapper", "Eigen::MatrixWrapper", "Eigen::CwiseBinaryOp",
             "Eigen::CwiseUnaryOp", "Eigen::Product", "Eigen::CwiseNullaryOp", "Eigen::Diagonal") and len(args) == 1:
        return load(E, args[0])
    if b in ("Eigen::DiagonalMatrix", "Eigen::DiagonalWrapper") and len(args) == 1:
        v = load(E, args[0])
        return v if isinstance(v, Wrap) else Wrap(E.asmat(v))
    if b in ("Eigen::LLT", "Eigen::ColPivHouseholderQR", "Eigen::JacobiSVD", "Eigen::FullPivLU",
             "Eigen::HouseholderQR", "Eigen::SelfAdjointEigenSolver", "Eigen::HouseholderSequence"):
        return Opaque(cls)
    if b in ("Eigen::Stride", "Eigen::InnerStride", "Eigen::OuterStride") and all("Dynamic" not in x and x != "-1" for x in T.tmpl(cls)[1]):
        return Opaque(cls)
    raise Unsupported("Eigen constructor " + cls[:120])


def rowsel(vals, c, i, j):
    k = simp(add(mul(i, c), j))
    r = vals[-1]
    for m in range(len(vals) - 2, -1, -1):
        r = ite(eq(k, m), vals[m], r)
    return r


def Vecm(vals):
    def get(i, j):
        i = simp(i)
        if not isz(i):
            return vals[i] if 0 <= i < len(vals) else vals[-1]
        r = vals[-1]
        for m in range(len(vals) - 2, -1, -1):
            r = ite(eq(i, m), vals[m], r)
        return r
    return Mat(len(vals), 1, get)


def diag_mat(d):
    return Mat(d.r, d.r, lambda i, j: ite(simp(eq(i, j)), d.get(i, 0), Fraction(0)))


def transpose(E, v):
    if isinstance(v, View) and not v.dg:
        return View(v.lv, v.i0, v.j0, v.c, v.r, not v.tr)
    m = E.asmat(v)
    return Mat(m.c, m.r, lambda i, j: m.get(j, i), m.st)


def ewise(f, *ms):
    m0 = ms[0]
    return Mat(m0.r, m0.c, lambda i, j: f(*[m.get(i, j) for m in ms]), m0.st)


def samesize(E, a, b, what):
    E.prove("same sizes in " + what, And(eq(a.r, b.r), eq(a.c, b.c)), safety=True)


def product(E, a, b):
    E.prove("inner dimensions of a product", eq(a.c, b.r), safety=True)
    n = a.c
    if not isz(n) and n == 1:
        r = Mat(a.r, b.c, lambda i, j: mul(a.get(i, 0), b.get(0, j)))
    else:
        r = Mat(a.r, b.c, lambda i, j: E.msum(n, lambda k: mul(a.get(i, k), b.get(k, j))))
    r.ex = ("product", a, b)
    return r


def scalar1(m):
    return m.get(0, 0)


def is_array(t):
    return "Eigen::ArrayBase" in t or "Eigen::ArrayWrapper" in t[:40] or t.startswith("Eigen::Array<")


def fixed_from_rt(rt):
    b, ta = T.tmpl(rt)
    if b == "Eigen::VectorBlock" and int(ta[1]) >= 0:
        return int(ta[1])
    return None


def maxmin(E, m, mx):
    key = ("mm", mx, id(m))
    r = E.fresh("real", "max" if mx else "min")
    k = E.fresh("int", "argm")
    E.index(k)
    E.fact(z3.Implies(B(lt(0, m.r)), And(le(0, k), lt(k, m.r), eq(m.get(k, 0), r))))
    E.forall(lambda i: Implies(And(le(0, i), lt(i, m.r)), le(m.get(i, 0), r) if mx else le(r, m.get(i, 0))))
    return r


def method(E, fn, this, args, e):
    cls = fn["cls"]
    name = fn["name"]
    m = name[len(cls) + 2:] if name.startswith(cls) else name.split("::")[-1]
    if fn.get("static"):
        return static(E, m, cls, args, fn, e)
    this = E.eigen_part(this)
    args = [E.eigen_part(a) for a in args]
    if cls.startswith("Eigen::RealSchur<") and m in ("matrixU", "matrixT"):
        return load(E, this).get(m)
    h = M.get(m)
    if h is not None:
        return h(E, this, args, fn, e)
    raise Unsupported("Eigen method " + m + " of " + cls[:80])


def vdim(E, v):
    """('r', n) if column vector, ('c', n) if row vector"""
    m = E.asmat(v) if not isinstance(v, (View, MapMem)) else v
    if not isz(m.c) and m.c == 1:
        return "r", m.r
    if not isz(m.r) and m.r == 1:
        return "c", m.c
    if E.must(eq(m.c, 1)):
        return "r", m.r
    raise Unsupported("vector operation on a matrix")


def m_rows(E, this, args, fn, e):
    v = load(E, this)
    return v.d.r if isinstance(v, Wrap) else v.r


def m_cols(E, this, args, fn, e):
    v = load(E, this)
    return v.d.r if isinstance(v, Wrap) else v.c


def m_size(E, this, args, fn, e):
    v = load(E, this)
    return simp(mul(v.r, v.c))


def m_elem(E, this, args, fn, e):
    v = load(E, this)
    idx = [simp(load(E, a)) for a in args]
    if len(idx) == 1:
        o, n = vdim(E, v)
        i, j = (idx[0], 0) if o == "r" else (0, idx[0])
    else:
        i, j = idx
    E.prove("coefficient in range", And(le(0, i), lt(i, v.r), le(0, j), lt(j, v.c)), safety=True)
    if isinstance(v, View):
        return E.view_elem(v, i, j)
    if isinstance(v, MapMem):
        return E.mapmem_elem(v, i, j)
    return N.settle(E, this).step("mat", i, j)


def block(E, this, i, j, r, c):
    v = load(E, this)
    E.prove("block in range", And(le(0, i), le(0, j), le(0, r), le(0, c), le(add(i, r), v.r), le(add(j, c), v.c)),
            safety=True)
    i, j, r, c = simp(i), simp(j), simp(r), simp(c)
    if isinstance(v, View) and not v.dg:
        if v.tr:
            return View(v.lv, simp(add(v.i0, j)), simp(add(v.j0, i)), r, c, True)
        return View(v.lv, simp(add(v.i0, i)), simp(add(v.j0, j)), r, c)
    if isinstance(v, MapMem) and not isz(v.c) and v.c == 1:
        return MapMem(v.arr, simp(add(v.off, i)), r, 1)
    if isinstance(v, Mat):
        return View(N.settle(E, this), i, j, r, c)
    return View(E.local(E.asmat(v)), i, j, r, c)


def seg(E, this, start, n):
    v = load(E, this)
    o, tot = vdim(E, v)
    s = start(tot)
    return block(E, this, s, 0, n, 1) if o == "r" else block(E, this, 0, s, 1, n)


def ints(E, args):
    return [simp(load(E, a)) for a in args]


def m_segment(E, this, args, fn, e):
    a = ints(E, args)
    n = a[1] if len(a) > 1 else fixed_from_rt(fn["rt"])
    return seg(E, this, lambda t: a[0], n)


def m_head(E, this, args, fn, e):
    a = ints(E, args)
    n = a[0] if a else fixed_from_rt(fn["rt"])
    return seg(E, this, lambda t: 0, n)


def m_tail(E, this, args, fn, e):
    a = ints(E, args)
    n = a[0] if a else fixed_from_rt(fn["rt"])
    return seg(E, this, lambda t: sub(t, n), n)


def m_block(E, this, args, fn, e):
    a = ints(E, args)
    if len(a) == 4:
        return block(E, this, *a)
    b, ta = T.tmpl(fn["rt"])
    return block(E, this, a[0], a[1], int(ta[1]), int(ta[2]))


def blk(f):
    def h(E, this, args, fn, e):
        v = load(E, this)
        a = ints(E, args)
        if not a:
            b, ta = T.tmpl(fn["rt"])
            a = [int(ta[1]) if f in ROWF else int(ta[2])]
        return block(E, this, *f(v, a))
    return h


def _f(fn):
    return fn


f_row = lambda v, a: (a[0], 0, 1, v.c)
f_col = lambda v, a: (0, a[0], v.r, 1)
f_top = lambda v, a: (0, 0, a[0], v.c)
f_bottom = lambda v, a: (sub(v.r, a[0]), 0, a[0], v.c)
f_left = lambda v, a: (0, 0, v.r, a[0])
f_right = lambda v, a: (0, sub(v.c, a[0]), v.r, a[0])
f_midr = lambda v, a: (a[0], 0, a[1], v.c)
f_midc = lambda v, a: (0, a[0], v.r, a[1])
f_tl = lambda v, a: (0, 0, a[0], a[1])
f_tr = lambda v, a: (0, sub(v.c, a[1]), a[0], a[1])
f_bl = lambda v, a: (sub(v.r, a[0]), 0, a[0], a[1])
f_br = lambda v, a: (sub(v.r, a[0]), sub(v.c, a[1]), a[0], a[1])
ROWF = (f_top, f_bottom, f_midr)


def m_self(E, this, args, fn, e):
    return this


def m_transpose(E, this, args, fn, e):
    return transpose(E, as_view(E, this))


def m_diagonal(E, this, args, fn, e):
    v = as_view(E, this)
    n = ite(le(v.r, v.c), v.r, v.c) if not (not isz(simp(eq(v.r, v.c))) and simp(eq(v.r, v.c))) else v.r
    if isinstance(v, View) and not v.tr:
        return View(v.lv, v.i0, v.j0, simp(n), 1, False, True)
    m = E.asmat(v)
    return Mat(simp(n), 1, lambda i, j: m.get(i, i))


def m_assign(E, this, args, fn, e):
    v = load(E, args[0])
    if isinstance(v, Wrap):
        v = diag_mat(v.d)
    if isinstance(v, Opaque):
        raise Unsupported("assignment of an Eigen decomposition")
    E.assign_mat(this, E.asmat(v))
    return this


def m_opassign(op):
    def h(E, this, args, fn, e):
        v = load(E, args[0])
        if isscalar(v):
            cur = E.asmat(this)
            if op in "*/" or is_array(fn["cls"]):
                f = {"*": lambda a: mul(a, v), "/": lambda a: rdiv(a, v), "+": lambda a: add(a, v),
                     "-": lambda a: sub(a, v)}[op]
                E.assign_mat(this, ewise(f, cur))
                return this
        if isinstance(v, Wrap):
            v = diag_mat(v.d)
        src = E.asmat(v)
        if op == "*":
            if is_array(fn["cls"]):
                E.assign_mat(this, src, op=mul)
                return this
            E.assign_mat(this, product(E, E.asmat(this), src))
            return this
        E.assign_mat(this, src, op={"+": add, "-": sub, "/": rdiv}[op])
        return this
    return h


def m_binop(op):
    def h(E, this, args, fn, e):
        return binop(E, op, load(E, this), load(E, args[0]), is_array(fn["cls"]))
    return h


def binop(E, op, a, b, arr):
    if isinstance(a, Wrap) and isinstance(b, Wrap) and op == "*":
        return Wrap(ewise(mul, a.d, b.d))
    if op == "*":
        if isscalar(a) and isinstance(b, Wrap):
            return Wrap(ewise(lambda x: mul(a, x), b.d))
        if isscalar(b) and isinstance(a, Wrap):
            return Wrap(ewise(lambda x: mul(x, b), a.d))
        if isscalar(a):
            b = E.asmat(b)
            return ewise(lambda x: mul(a, x), b)
        if isscalar(b):
            a = E.asmat(a)
            return ewise(lambda x: mul(x, b), a)
        if isinstance(a, Wrap):
            b = E.asmat(b)
            E.prove("inner dimensions of a product", eq(a.d.r, b.r), safety=True)
            d = a.d
            return Mat(b.r, b.c, lambda i, j: mul(d.get(i, 0), b.get(i, j)))
        if isinstance(b, Wrap):
            a = E.asmat(a)
            E.prove("inner dimensions of a product", eq(b.d.r, a.c), safety=True)
            d = b.d
            return Mat(a.r, a.c, lambda i, j: mul(a.get(i, j), d.get(j, 0)))
        a, b = E.asmat(a), E.asmat(b)
        if arr:
            samesize(E, a, b, "an element-wise product")
            return ewise(mul, a, b)
        return product(E, a, b)
    if op == "/":
        if isscalar(b):
            a = E.asmat(a)
            return ewise(lambda x: rdiv(x, b), a)
        if isscalar(a):
            b = E.asmat(b)
            return ewise(lambda x: rdiv(a, x), b)
        a, b = E.asmat(a), E.asmat(b)
        return ewise(rdiv, a, b)
    f = {"+": add, "-": sub}.get(op)
    if f is None:
        f = {"<": lt, "<=": le, ">": lambda x, y: lt(y, x), ">=": lambda x, y: le(y, x), "==": eq, "!=": ne}.get(op)
        if f is None:
            raise Unsupported("Eigen operator " + op)
        if op in ("==", "!=") and not arr:
            raise Unsupported("matrix comparison")
    if isscalar(a) and not isscalar(b):
        b = E.asmat(b)
        return ewise(lambda x: f(a, x), b)
    if isscalar(b) and not isscalar(a):
        a = E.asmat(a)
        return ewise(lambda x: f(x, b), a)
    if isinstance(a, Wrap):
        a = diag_mat(a.d)
    if isinstance(b, Wrap):
        b = diag_mat(b.d)
    a, b = E.asmat(a), E.asmat(b)
    samesize(E, a, b, "a sum" if op in "+-" else "a comparison")
    return ewise(f, a, b)


def m_minus(E, this, args, fn, e):
    if args:
        return binop(E, "-", load(E, this), load(E, args[0]), is_array(fn["cls"]))
    v = load(E, this)
    if isinstance(v, Wrap):
        return Wrap(ewise(neg, v.d))
    return ewise(neg, E.asmat(v))


def m_cw(f, what):
    def h(E, this, args, fn, e):
        a = E.asmat(this)
        b = load(E, args[0])
        if isscalar(b):
            return ewise(lambda x: f(x, b), a)
        b = E.asmat(b)
        samesize(E, a, b, what)
        return ewise(f, a, b)
    return h


fmin = lambda a, b: ite(simp(lt(b, a)), b, a)
fmax = lambda a, b: ite(simp(lt(a, b)), b, a)


def m_un(f):
    def h(E, this, args, fn, e):
        return ewise(lambda x: f(E, x), E.asmat(this))
    return h


def _sqrt(E, x):
    import lib
    return lib.usqrt(E, x)


def m_set(f):
    def h(E, this, args, fn, e):
        v = load(E, this)
        n = ints(E, args)
        if f == "const" or f == "fill":
            val = n[-1]
            dims = n[:-1]
        else:
            val = {"zero": Fraction(0), "one": Fraction(1)}.get(f)
            dims = n
        r, c = v.r, v.c
        if len(dims) == 1:
            r, c = (dims[0], 1) if not isz(v.c) and v.c == 1 else (1, dims[0])
        elif len(dims) == 2:
            r, c = dims
        if f == "ident":
            src = Mat(r, c, lambda i, j: ite(simp(eq(i, j)), Fraction(1), Fraction(0)))
        else:
            src = Mat(r, c, lambda i, j: val)
        E.assign_mat(this, src)
        return this
    return h


def m_resize(keep):
    def h(E, this, args, fn, e):
        v = load(E, this)
        if fn["name"].endswith("Like"):
            o = E.asmat(args[0])
            n = [o.r] if not isz(v.c) and v.c == 1 else [o.c] if not isz(v.r) and v.r == 1 else [o.r, o.c]
        else:
            n = ints(E, args)
        if isinstance(v, (View, MapMem)):
            return None
        if isinstance(v, Uninit):
            v = Mat(0, 0, lambda i, j: Fraction(0))
        if len(n) == 1:
            r, c = (n[0], 1) if not isz(v.c) and v.c == 1 else (1, n[0])
        else:
            r, c = n
        u = fresh_mat(E, r, c)
        g = v.get
        if keep:
            r0, c0 = v.r, v.c

            def get(i, j):
                return ite(simp(And(lt(i, r0), lt(j, c0))), g(i, j), u.get(i, j))
            E.write(N.settle(E, this), Mat(r, c, get, v.st))
        else:
            same = simp(And(eq(r, v.r), eq(c, v.c)))
            if same is True:
                return None
            # contents unspecified (even if Eigen keeps them when the total size is unchanged)
            E.write(N.settle(E, this), Mat(r, c, u.get, v.st))
        return None
    return h


def m_asdiag(E, this, args, fn, e):
    return Wrap(E.asmat(this))


def m_sum(E, this, args, fn, e):
    w = load(E, this)
    if isinstance(w, RowWise):
        m = w.m
        if w.rows:
            return Mat(m.r, 1, lambda i, j: E.msum(m.c, lambda k: m.get(i, k)))
        return Mat(1, m.c, lambda i, j: E.msum(m.r, lambda k: m.get(k, j)))
    m = E.asmat(this)
    o, n = vdim(E, m)
    return E.msum(n, lambda k: m.get(k, 0) if o == "r" else m.get(0, k))


class RowWise:
    __slots__ = ("m", "rows")

    def __init__(self, m, rows):
        self.m, self.rows = m, rows


def m_wise(rows):
    return lambda E, this, args, fn, e: RowWise(E.asmat(this), rows)


def m_part(kind, i):
    """operands of an expression template"""
    def h(E, this, args, fn, e):
        m = load(E, this)
        x = getattr(m, "ex", None)
        if x is None or x[0] != kind:
            raise Unsupported("operand of an expression")
        return x[i]
    return h


def m_dot(E, this, args, fn, e):
    a, b = E.asmat(this), E.asmat(args[0])
    E.prove("sizes of a dot product", eq(a.r, b.r), safety=True)
    return E.msum(a.r, lambda k: mul(a.get(k, 0), b.get(k, 0)))


def m_sqnorm(E, this, args, fn, e):
    a = E.asmat(this)
    return E.msum(a.r, lambda k: mul(a.get(k, 0), a.get(k, 0)))


def m_norm(E, this, args, fn, e):
    return _sqrt(E, m_sqnorm(E, this, args, fn, e))


def m_minmax(mx):
    def h(E, this, args, fn, e):
        if args:
            raise Unsupported("maxCoeff with index")
        return maxmin(E, E.asmat(this), mx)
    return h


def m_data(E, this, args, fn, e):
    v = load(E, this)
    if isinstance(v, MapMem):
        return PtrD(v.arr, v.off)
    raise Unsupported("data()")


def m_comma0(E, this, args, fn, e):
    lv = this
    x = load(E, args[0])
    c = Comma(lv, 0)
    return comma_next(E, c, x)


def comma_next(E, c, x):
    v = load(E, c.lv)
    if not isscalar(x):
        x = E.asmat(x)
        if not isz(x.r) and x.r == 1 and not isz(x.c) and x.c == 1:
            x = x.get(0, 0)
        elif not isz(v.c) and v.c == 1 and not isz(x.c) and x.c == 1:
            E.assign_mat(E.local(block(E, c.lv, c.k, 0, x.r, 1)), x)
            return Comma(c.lv, simp(add(c.k, x.r)))
        else:
            raise Unsupported("comma initialiser with blocks")
    if isz(v.c):
        raise Unsupported("comma initialiser of dynamic size")
    k = c.k
    i, j = (k, 0) if v.c == 1 else (k // v.c, k % v.c)
    E.write(m_elem(E, c.lv, [i, j], None, None), x)
    return Comma(c.lv, simp(add(k, 1)))


def m_comma(E, this, args, fn, e):
    return comma_next(E, load(E, this), load(E, args[0]))


def m_none(E, this, args, fn, e):
    return this


def m_value(E, this, args, fn, e):
    return E.asmat(this).get(0, 0)


def m_all(E, this, args, fn, e):
    m = E.asmat(this)
    o, n = vdim(E, m)
    b = E.fresh("bool", "all")
    k = E.fresh("int", "wit")
    E.index(k)
    g = (lambda i: m.get(i, 0)) if o == "r" else (lambda i: m.get(0, i))
    E.forall(lambda i: Implies(And(b, le(0, i), lt(i, n)), g(i)))
    E.fact(Or(b, And(le(0, k), lt(k, n), Not(g(k)))))
    return b


def m_any(E, this, args, fn, e):
    m = E.asmat(this)
    o, n = vdim(E, m)
    b = E.fresh("bool", "any")
    k = E.fresh("int", "wit")
    E.index(k)
    g = (lambda i: m.get(i, 0)) if o == "r" else (lambda i: m.get(0, i))
    E.forall(lambda i: Implies(And(Not(b), le(0, i), lt(i, n)), Not(g(i))))
    E.fact(Or(Not(b), And(le(0, k), lt(k, n), g(k))))
    return b


def m_isdiagonal(E, this, args, fn, e):
    """the tolerance is taken as zero"""
    m = E.asmat(this)
    b = E.fresh("bool", "isDiagonal")
    i, j = E.fresh("int", "wit"), E.fresh("int", "wit")
    E.index(i)
    E.index(j)
    E.fact(Or(b, And(le(0, i), lt(i, m.r), le(0, j), lt(j, m.c), ne(i, j), ne(m.get(i, j), 0))))
    E.memo.setdefault("isDiagonal", []).append((b, m))
    return b


def m_select(E, this, args, fn, e):
    c = E.asmat(this)
    a, b = load(E, args[0]), load(E, args[1])
    fa = (lambda i, j: a) if isscalar(a) else E.asmat(a).get
    fb = (lambda i, j: b) if isscalar(b) else E.asmat(b).get
    return Mat(c.r, c.c, lambda i, j: ite(simp(c.get(i, j)), fa(i, j), fb(i, j)))


def m_swap(E, this, args, fn, e):
    a, b = E.asmat(this), E.asmat(args[0])
    E.assign_mat(this, b)
    E.assign_mat(args[0], a)
    return None


M = {"rows": m_rows, "cols": m_cols, "size": m_size, "operator()": m_elem, "coeff": m_elem, "coeffRef": m_elem,
     "operator[]": m_elem, "x": lambda E, t, a, f, e: m_elem(E, t, [0], f, e),
     "y": lambda E, t, a, f, e: m_elem(E, t, [1], f, e), "z": lambda E, t, a, f, e: m_elem(E, t, [2], f, e),
     "segment": m_segment, "head": m_head, "tail": m_tail, "block": m_block,
     "row": blk(f_row), "col": blk(f_col), "topRows": blk(f_top), "bottomRows": blk(f_bottom),
     "leftCols": blk(f_left), "rightCols": blk(f_right), "middleRows": blk(f_midr), "middleCols": blk(f_midc),
     "topLeftCorner": blk(f_tl), "topRightCorner": blk(f_tr), "bottomLeftCorner": blk(f_bl),
     "bottomRightCorner": blk(f_br),
     "noalias": m_self, "array": m_self, "matrix": m_self, "derived": m_self, "eval": lambda E, t, a, f, e: E.asmat(t),
     "const_cast_derived": m_self, "transpose": m_transpose, "diagonal": m_diagonal, "operator=": m_assign,
     "operator+": m_binop("+"), "operator-": m_minus, "operator*": m_binop("*"), "operator/": m_binop("/"),
     "operator+=": m_opassign("+"), "operator-=": m_opassign("-"), "operator*=": m_opassign("*"),
     "operator/=": m_opassign("/"), "operator<": m_binop("<"), "operator<=": m_binop("<="), "operator>": m_binop(">"),
     "operator>=": m_binop(">="), "operator==": m_binop("=="), "operator!=": m_binop("!="),
     "cwiseProduct": m_cw(mul, "an element-wise product"), "cwiseQuotient": m_cw(rdiv, "an element-wise quotient"),
     "cwiseMin": m_cw(fmin, "cwiseMin"), "cwiseMax": m_cw(fmax, "cwiseMax"), "min": m_cw(fmin, "min"),
     "max": m_cw(fmax, "max"), "cwiseAbs": m_un(lambda E, x: ite(simp(lt(x, 0)), neg(x), x)),
     "abs": m_un(lambda E, x: ite(simp(lt(x, 0)), neg(x), x)), "cwiseSqrt": m_un(_sqrt), "sqrt": m_un(_sqrt),
     "square": m_un(lambda E, x: mul(x, x)), "cwiseInverse": m_un(lambda E, x: rdiv(Fraction(1), x)),
     "setZero": m_set("zero"), "setOnes": m_set("one"), "setConstant": m_set("const"), "fill": m_set("fill"),
     "setIdentity": m_set("ident"), "resize": m_resize(False), "resizeLike": m_resize(False), "conservativeResize": m_resize(True),
     "asDiagonal": m_asdiag, "sum": m_sum, "dot": m_dot, "squaredNorm": m_sqnorm, "norm": m_norm,
     "maxCoeff": m_minmax(True), "minCoeff": m_minmax(False), "data": m_data, "operator<<": m_comma0,
     "operator,": m_comma, "finished": m_none, "value": m_value, "all": m_all, "any": m_any, "select": m_select, "isDiagonal": m_isdiagonal, "swap": m_swap,
     "operator double": m_value, "operator const double": m_value, "innerSize": m_rows, "rowwise": m_wise(True), "colwise": m_wise(False), "lhs": m_part("product", 1), "rhs": m_part("product", 2),
     "functor": m_self, "lazyProduct": lambda E, t, a, f, e: product(E, E.asmat(t), E.asmat(a[0]))}


def static(E, m, cls, args, fn, e):
    try:
        r, c, s = E.eigen_dims(T.tmpl(cls)[1][0] if "Base" in cls else cls)
    except Unsupported:
        r = c = None
    n = ints(E, args)
    if m == "Constant":
        val, dims = n[-1], n[:-1]
    elif m in ("Zero", "Ones", "Identity", "UnitX", "UnitY", "UnitZ"):
        dims = n
    else:
        raise Unsupported("Eigen static " + m)
    if len(dims) == 1:
        r, c = dims[0], 1
    elif len(dims) == 2:
        r, c = dims
    if m == "Zero":
        return Mat(r, c, lambda i, j: Fraction(0))
    if m == "Ones":
        return Mat(r, c, lambda i, j: Fraction(1))
    if m == "Identity":
        return Mat(r, c, lambda i, j: ite(simp(eq(i, j)), Fraction(1), Fraction(0)))
    if m == "Constant":
        v = Mat(r, c, lambda i, j: val)
        v.ex = ("constant", val)
        return v
    k = "XYZ".index(m[-1])
    return Vecm([Fraction(1 if q == k else 0) for q in range(3)])


def function(E, fn, args, e):
    n = fn["name"].split("::")[-1]
    if n.startswith("operator"):
        op = n[8:]
        if len(args) == 2:
            a, b = load(E, args[0]), load(E, args[1])
            return binop(E, op, a, b, any(is_array(p) for p in fn["pt"]))
        if op == "-":
            return ewise(neg, E.asmat(args[0]))
    if n in ("abs", "sqrt", "square"):
        return M[n](E, args[0], [], fn, e)
    raise Unsupported("Eigen function " + fn["key"][:100])
