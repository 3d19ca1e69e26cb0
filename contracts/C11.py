"""C11: compiled copy operations. Every instantiation of CompiledAssignment the library can build (operation x weight x
multiplication x source, for matrices and vectors of any size) is made, run and modified through the real wrapper."""
import re
from engine.run import unit
from values import *
TUS = ["tus/compiled.cpp"]
DRIVER = "C11.cpp"
SOURCES = ["utils/memoryChecks.cpp"]
DRIVER_S = 10
BOUNDED = "random histories (runs, changes of the sources, redirections, copies, moves) of every combination, sizes 0 to 24, " \
          "windows inside larger buffers, against the coefficient-wise formula"
ASSUMPTIONS = ["the coefficients are reals (rounding is not modelled)",
               "the sources and the destination do not overlap, and outlive the assignment",
               "an INVERSE_DIAGONAL matrix has no zero on its diagonal",
               "CUSTOM multiplications (a user function pointer, not compilable here) are not covered",
               "the wrapper copied from is not empty"]
TRUSTED = ["Eigen: meaning of its expressions (product, lazyProduct, asDiagonal, rowwise sum, array min/max, Ref, placement of a Ref)",
           "std::tuple, std::unique_ptr with a deleter: release of memory is not modelled"]
NS = "tvm::scheme::internal::"
MAT, VEC = "Eigen::Matrix<double, -1, -1, 0, -1, -1>", "Eigen::Matrix<double, -1, 1, 0, -1, 1>"
OPS = ["COPY", "ADD", "SUB", "MIN", "MAX"]
WEIGHTS = ["NONE", "MINUS", "SCALAR", "DIAGONAL"]
MULTS = ["IDENTITY", "GENERAL", "INVERSE_DIAGONAL"]


def wrap(T):
    return NS + "CompiledAssignmentWrapper<" + T + ">"


def maker(E, T, A, W, M, F):
    pat = "::make<%s>" % ", ".join(NS + x for x in (A, W, M, F))
    r = [f for f in E.prog.byname[wrap(T) + "::make"] if pat.rstrip(">") + ", " in f["key"]]
    if len(r) != 1:
        raise Unsupported("instantiation %s of make" % pat)
    return r[0]


class Win:
    """a window of a buffer of any size"""
    def __init__(s, E, T, name, r, c):
        s.R, s.C, s.i0, s.j0 = (E.fresh("int", name + x) for x in ("_rows", "_cols", "_i0", "_j0"))
        s.r, s.c = r, c
        f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.IntSort(), z3.RealSort())
        s.big = E.local(Mat(s.R, s.C, lambda i, j: f(I(i), I(j))))
        for a, n, N in ((s.i0, r, s.R), (s.j0, c, s.C)):
            E.assume(And(le(0, a), le(0, n), le(add(a, n), N)))
        s.view = View(s.big, s.i0, s.j0, r, c)

    def mat(s, E):
        return E.asmat(E.read(s.big))

    def at(s, E, i, j):
        return s.mat(E).get(add(s.i0, i), add(s.j0, j))


class Case:
    def __init__(s, E, T, A, W, M, F):
        s.T, s.A, s.W, s.M, s.F = T, A, W, M, F
        vec = s.vec = T == VEC
        n = lambda x: E.input(x, E.fresh("int", x))
        s.r, s.c = n("rows"), 1 if vec else n("cols")
        k = n("inner")
        E.assume(And(le(0, s.r), le(0, s.c), le(0, k)))
        fr, fc = (k, 1) if vec and M == "GENERAL" else (s.r, 1) if vec else (s.r, k) if M == "GENERAL" else (s.r, s.c)
        s.from_ = [Win(E, T, "from%d" % q, fr, fc) for q in range(2)]
        s.to = [Win(E, T, "to%d" % q, s.r, s.c) for q in range(2)]
        s.d = Win(E, VEC, "diag", s.r, 1)
        mr, mc = (s.r, k) if vec and M == "GENERAL" else (k, s.c) if M == "GENERAL" else (s.r, s.r) if vec else (s.c, s.c)
        s.m = Win(E, MAT, "mult", mr, mc)
        s.k = k
        s.s = E.local(E.fresh("real", "scalar"))
        s.cst = [E.fresh("real", "constant%d" % q) for q in range(2)]

    def make(s, E, t=0, q=0):
        f = maker(E, s.T, s.A, s.W, s.M, s.F)
        a = [E.local(s.to[t].view)]
        if s.F == "EXTERNAL":
            a.append(E.local(s.from_[q].view))
        if s.F == "CONSTANT":
            a.append(E.local(s.cst[q]))
        if s.W == "SCALAR":
            a.append(s.s)
        if s.W == "DIAGONAL":
            a.append(E.local(s.d.view))
        if s.M != "IDENTITY" and s.F != "ZERO":
            a.append(E.local(s.m.view))
        return E.local(E.call(f["key"], None, a))

    def change(s, E):
        """the sources get other contents"""
        for w in s.from_ + s.to + [s.d, s.m]:
            f = z3.Function("later!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort(), z3.RealSort())
            E.write(w.big, Mat(w.R, w.C, lambda i, j, f=f: f(I(i), I(j))))
        E.write(s.s, E.fresh("real", "scalar"))

    def value(s, E, i, j, q):
        """declared combination, before the operation"""
        src = (lambda a, b: s.cst[q]) if s.F == "CONSTANT" else (lambda a, b: s.from_[q].at(E, a, b))
        if s.M == "IDENTITY":
            v = src(i, j)
        elif s.M == "GENERAL":
            v = E.msum(s.k, (lambda l: mul(s.m.at(E, i, l), src(l, 0))) if s.vec else (lambda l: mul(src(i, l), s.m.at(E, l, j))))
        else:
            l = i if s.vec else j
            E.assume(ne(s.m.at(E, l, l), 0))
            v = rdiv(src(i, j), s.m.at(E, l, l))
        if s.W == "MINUS":
            v = neg(v)
        if s.W == "SCALAR":
            v = mul(E.read(s.s), v)
        if s.W == "DIAGONAL":
            v = mul(s.d.at(E, i, 0), v)
        return v

    def run(s, E, w, t=0, q=0, what=""):
        i, j = E.skolem("row"), 0 if s.vec else E.skolem("col")
        E.assume(And(le(0, i), lt(i, s.r)))
        if not s.vec:
            E.assume(And(le(0, j), lt(j, s.c)))
        old = s.to[t].at(E, i, j)
        v = Fraction(0) if s.F == "ZERO" else s.value(E, i, j, q)
        exp = {"COPY": v, "ADD": add(old, v), "SUB": sub(old, v), "MIN": ite(lt(v, old), v, old),
               "MAX": ite(lt(old, v), v, old)}[s.A]
        ws = s.from_ + s.to + [s.d, s.m]
        before = [x.mat(E) for x in ws]
        a, b = E.skolem("i"), E.skolem("j")
        sc = E.read(s.s)
        E.call(wrap(s.T) + "::run", w, [])
        E.prove("the destination holds the declared combination" + what, eq(s.to[t].at(E, i, j), exp))
        for x, m in zip(ws, before):
            out = True
            if x is s.to[t]:
                out = Or(lt(a, x.i0), le(add(x.i0, x.r), a), lt(b, x.j0), le(add(x.j0, x.c), b))
                E.assume(And(le(0, a), lt(a, x.R), le(0, b), lt(b, x.C)))
            E.prove("nothing else is modified" + what, Implies(out, eq(x.mat(E).get(a, b), m.get(a, b))))
            E.prove("no buffer is resized" + what, And(eq(x.mat(E).r, m.r), eq(x.mat(E).c, m.c)))
        E.prove("the scalar is not modified" + what, eq(E.read(s.s), sc))


def combos(T):
    r = [(W, M, F) for W in WEIGHTS for M in MULTS for F in (["EXTERNAL", "CONSTANT"] if T == VEC else ["EXTERNAL"])]
    return r + [("NONE", "IDENTITY", "ZERO")]


def pick(E, cs):
    while len(cs) > 1:
        h = len(cs) // 2
        cs = cs[:h] if E.choose("combination") else cs[h:]
    return cs[0]


def mk(T, A):
    nm = "matrix" if T == MAT else "vector"

    @unit("%s %s" % (nm, A), [NS + "CompiledAssignment<%s, %s>" % (nm, A)], limit=3000)
    def f(E):
        cs = combos(T)
        W, M, F = pick(E, cs)
        c = Case(E, T, A, W, M, F)
        w = c.make(E)
        c.change(E)
        if E.choose("run twice"):
            E.call(wrap(T) + "::run", w, [])
            c.change(E)
        c.run(E, w)

    @unit("%s %s: redirection" % (nm, A), [NS + "CompiledAssignment<%s, %s>" % (nm, A)], limit=3000)
    def g(E):
        W, M, F = pick(E, combos(T))
        c = Case(E, T, A, W, M, F)
        w = c.make(E)
        E.call(method(E, T, "to"), w, [E.local(c.to[1].view)])
        c.run(E, w, 1, 0, " after to()")
        fd, fm = method(E, T, "from", "double"), method(E, T, "from", "Eigen::Ref")
        k, _ = E.call_x(fm if F == "CONSTANT" else fd, w, [E.local(c.from_[1].view) if F == "CONSTANT" else c.cst[1]])
        E.prove("a source of the wrong kind is refused", k == "throw")
        E.call(fd if F == "CONSTANT" else fm, w, [c.cst[1] if F == "CONSTANT" else E.local(c.from_[1].view)])
        c.run(E, w, 1, 1, " after from()")

    @unit("%s %s: copies" % (nm, A), [NS + "CompiledAssignment<%s, %s>" % (nm, A)], limit=3000)
    def h(E):
        W, M, F = pick(E, combos(T))
        c = Case(E, T, A, W, M, F)
        w = c.make(E)
        if E.choose("assigned"):
            w2 = E.construct(wrap(T), [], fn=method(E, T, "CompiledAssignmentWrapper", None), heap=False)
            if E.choose("over another one"):
                w2 = Case(E, T, "SUB", "NONE", "IDENTITY", "ZERO" if T == MAT or F == "CONSTANT" else "CONSTANT").make(E)
            E.call(method(E, T, "operator=", "const"), w2, [w])
        else:
            w2 = E.construct(wrap(T), [w], fn=method(E, T, "CompiledAssignmentWrapper", "const"), heap=False)
        c.run(E, w2, 0, 0, " by a copy")
        E.call(method(E, T, "to"), w2, [E.local(c.to[1].view)])
        k, _ = E.call_x(method(E, T, "from", "Eigen::Ref" if F == "CONSTANT" else "double"), w2,
                        [E.local(c.from_[1].view) if F == "CONSTANT" else c.cst[1]])
        E.prove("a source of the wrong kind is refused by a copy", k == "throw")
        E.call(method(E, T, "from", "double" if F == "CONSTANT" else "Eigen::Ref"), w2,
               [c.cst[1] if F == "CONSTANT" else E.local(c.from_[1].view)])
        c.run(E, w, 0, 0, " although a copy was redirected")
        c.run(E, w2, 1, 1, " by a redirected copy")
    return f


def method(E, T, name, arg=""):
    name = wrap(T) + "::" + name
    r = [f for f in E.prog.byname[name] if arg == "" or (not f["pt"] if arg is None else f["pt"] and (arg == f["pt"][0] if arg == "double" else arg in f["pt"][0]))]
    if len(r) != 1:
        raise Unsupported("%d methods %s(%s)" % (len(r), name, arg))
    return r[0]["key"]


for T_ in (MAT, VEC):
    for A_ in OPS:
        mk(T_, A_)
