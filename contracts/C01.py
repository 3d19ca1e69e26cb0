"""C01: Range as a half-open interval of integers. Source: include/tvm/Range.h (real bodies, extracted)."""
from engine.run import unit
from values import *

TUS = ["src/internal/RangeCounting.cpp"]
DRIVER = "C01.cpp"
R = "tvm::Range"


def rng(E, n):
    s, d = E.input(n + ".start", E.fresh("int", n + "s")), E.input(n + ".dim", E.fresh("int", n + "d"))
    E.assume(le(0, d))
    return E.local(Struct(R, {"start": s, "dim": d}), R), s, d


@unit("Range::Range", [R + "::Range"])
def ctor(E):
    s, d = E.input("s", E.fresh("int", "s")), E.input("d", E.fresh("int", "d"))
    E.assume(le(0, d))
    r = E.construct(R, [s, d], heap=False)
    E.prove("start is the first argument", eq(E.fld(r, "start"), s))
    E.prove("dim is the second argument", eq(E.fld(r, "dim"), d))
    z = E.construct(R, [], heap=False)
    E.prove("default range is empty", eq(E.fld(z, "dim"), 0))
    E.prove("default range starts at 0", eq(E.fld(z, "start"), 0))


@unit("Range::end", [R + "::end"])
def end(E):
    r, s, d = rng(E, "r")
    E.prove("end is the first integer after the range", eq(E.call("tvm::Range::end", r), add(s, d)))


@unit("Range::contains(int)", [R + "::contains"])
def contains_int(E):
    r, s, d = rng(E, "r")
    i = E.input("i", E.fresh("int", "i"))
    E.prove("contains(i) iff s <= i < s+d", eq(B(E.call("tvm::Range::contains(int) const", r, [i])),
                                              And(le(s, i), lt(i, add(s, d)))))


@unit("Range::contains(Range)", [R + "::contains"])
def contains_range(E):
    r, s, d = rng(E, "r")
    q, t, e = rng(E, "q")
    c = B(E.call("tvm::Range::contains(const tvm::Range &) const", r, [q]))
    i = E.skolem("i")
    startin = And(le(s, t), lt(t, add(s, d)))
    # soundness for an arbitrary index, completeness through the two extreme indices
    E.prove("a contained range's indices are all inside", Implies(And(c, le(t, i), lt(i, add(t, e))),
                                                                   And(le(s, i), lt(i, add(s, d)))))
    E.prove("a contained range's start is inside", Implies(c, startin))
    last = sub(add(t, e), 1)
    E.prove("start and every index inside implies contained",
            Implies(And(startin, Or(eq(e, 0), And(le(s, last), lt(last, add(s, d))))), c))


@unit("Range::intersects", [R + "::intersects"])
def intersects(E):
    r, s, d = rng(E, "r")
    q, t, e = rng(E, "q")
    E.assume(And(lt(0, d), lt(0, e)))
    c = B(E.call("tvm::Range::intersects", r, [q]))
    i = E.skolem("i")
    both = lambda i: And(le(s, i), lt(i, add(s, d)), le(t, i), lt(i, add(t, e)))
    E.prove("a shared index implies intersects", Implies(both(i), c))
    E.prove("intersects implies a shared index (one of the two starts)", Implies(c, Or(both(s), both(t))))


@unit("Range::operator+-", [R + "::operator+", R + "::operator-"])
def shift(E):
    r, s, d = rng(E, "r")
    k = E.input("k", E.fresh("int", "k"))
    a = E.local(E.call("tvm::Range::operator+", r, [k]), R)
    b = E.local(E.call("tvm::Range::operator-", r, [k]), R)
    E.prove("r+k starts at s+k", eq(E.fld(a, "start"), add(s, k)))
    E.prove("r+k keeps the length", eq(E.fld(a, "dim"), d))
    E.prove("r-k starts at s-k", eq(E.fld(b, "start"), sub(s, k)))
    E.prove("r-k keeps the length", eq(E.fld(b, "dim"), d))


@unit("Range::operator==", [R + "::operator==", R + "::operator!="])
def equality(E):
    r, s, d = rng(E, "r")
    q, t, e = rng(E, "q")
    E.prove("== iff same start and length", eq(B(E.call("tvm::Range::operator==", r, [q])), And(eq(s, t), eq(d, e))))
    E.prove("!= is the negation of ==", eq(B(E.call("tvm::Range::operator!=", r, [q])), Not(And(eq(s, t), eq(d, e)))))


@unit("Range::relativeRange", [R + "::relativeRange"])
def relative(E):
    r, s, d = rng(E, "r")
    q, t, e = rng(E, "q")
    k, v = E.call_x("tvm::Range::relativeRange", r, [q])
    inside = And(le(s, t), lt(t, add(s, d)), le(add(t, e), add(s, d)))
    if k != "ret":
        E.prove("the precondition assertion only rejects ranges that are not contained", Not(inside))
        return
    v = E.local(v, R)
    E.assume(inside)
    i = E.skolem("i")
    E.prove("index i of the other range is index i - start of the relative one",
            eq(And(le(t, i), lt(i, add(t, e))),
               And(le(E.fld(v, "start"), sub(i, s)), lt(sub(i, s), add(E.fld(v, "start"), E.fld(v, "dim"))))))
    E.prove("the length is kept", eq(E.fld(v, "dim"), e))
SOURCES = ["internal/RangeCounting.cpp"]
DRIVER_S = 3
BOUNDED = "all pairs of ranges with start in [-5,5] and length in [0,5], random large ranges"
