"""C06: VariableCountingVector on top of the contract of RangeCounting (proved in C02)."""
import z3
from engine.run import unit
from values import *
import lib
import loops
TUS = ["src/internal/VariableCountingVector.cpp", "src/Variable.cpp", "src/Space.cpp"]
DRIVER = "C06.cpp"
SOURCES = ["Space.cpp", "Variable.cpp", "VariableVector.cpp", "internal/ObjWithId.cpp", "internal/RangeCounting.cpp", "internal/VariableCountingVector.cpp"]
DRIVER_S = 10
BOUNDED = "the composition with RangeCounting, Variable and VariableVector: random and exhaustive histories over Euclidean and non-Euclidean variables, " \
          "their derivatives and parts, with and without splitting, and long histories leaving many pieces; iteration over partitions"
ASSUMPTIONS = ["the countings kept for the size, the representation and the tangent representation have as many pieces, in the same order (the parts "
               "given are unions of factors of the space of their super-variable)",
               "each maximal range needs at least one addition that changed what is covered (a property of sets of integers): with it, the counter being "
               "equal to the number of ranges and no removal counted in it, each range stems from a single such addition"]
TRUSTED = ["the contract of RangeCounting (proved in C02)", "std::map (any enumeration order), std::shared_ptr"]
C = "tvm::internal::VariableCountingVector"
RC = "tvm::internal::RangeCounting"
V = "tvm::Variable"
VV = "tvm::VariableVector"
SPACES = ("mSize_", "rSize_", "tSize_")
COUNTS = ["count_"]


def limits(rc):
    return rc.get("limits_")


class Vector:
    """a counting vector, a variable (whole or part) and another super-variable"""

    def __init__(s, E):
        s.E = E
        s.o = E.obj(C, "c")
        s.v = E.obj(V, "v")
        s.sup = E.sym("std::shared_ptr<tvm::Variable>", "super")
        s.other = E.sym("tvm::Variable *", "other")
        E.assume(And(ne(s.sup.a, 0), ne(s.other.a, 0), ne(s.sup.a, s.other.a)))
        s.log = []
        E.stubs[V + "::superVariable"] = s.super
        E.stubs[RC + "::add"] = lambda E, this, a, fn: s.count("add", this, a)
        E.stubs[RC + "::remove"] = lambda E, this, a, fn: s.count("remove", this, a)
        s.count0 = s.counts()
        s.had = B(s.count0.has(s.sup))
        s.fresh0 = s.f("upToDate_")
        s.split = B(s.f("split_"))
        for n in SPACES:
            E.assume(And(le(0, E.fld(s.v, "space_").get(n)), le(0, E.fld(s.v, "shift_").get(n))))

    def f(s, name):
        return s.E.fld(s.o, name)

    def counts(s):
        return s.f("count_")

    def super(s, E, this, args, fn):
        E.prove("the super-variable of the variable given", eq(lib.addr_of(this) if hasattr(lib, "addr_of") else this.root[1], s.v.a))
        return s.sup

    def count(s, what, this, args):
        """contract of RangeCounting::add and remove: another content, and whether what is covered changes"""
        E = s.E
        g = lib.load(E, args[0])
        rc = E.read(this)
        key = [st[1] for st in this.path if st[0] == "key"]
        where = [st[1] for st in this.path if st[0] == "f" and st[1] in SPACES]
        change = E.fresh("bool", "changes")
        s.log.append((what, key[0] if key else None, where[0] if where else None, g.get("start"), g.get("dim"), change, limits(rc)))
        now = E.sym("std::list<tvm::internal::RangeCounting::Limit>", "limits%d" % E.fresh_id())
        E.write(this.step("f", "limits_", RC), now)
        s.log[-1] += (now,)
        return change

    def same_other(s):
        """the entry of the other super-variable"""
        a, b = s.count0, s.counts()
        x, y = a.get(s.other), b.get(s.other)
        e = [eq(a.has(s.other), b.has(s.other))]
        if isinstance(x, Struct) and isinstance(y, Struct):
            e.append(Implies(a.has(s.other), And(eq(x.get("second"), y.get("second")), *[
                eq(limits(x.get("first").get(n)).n, limits(y.get("first").get(n)).n) for n in SPACES])))
        return And(*e)

    def called(s, what):
        """one call for each of the three sizes, on the entry of the super-variable, with the range of the variable in it"""
        E = s.E
        sp, sh = E.fld(s.v, "space_"), E.fld(s.v, "shift_")
        E.prove("each of the three sizes is counted", sorted(l[2] or "" for l in s.log) == sorted(SPACES))
        for l in s.log:
            E.prove("%s: on the entry of the super-variable" % l[2], And(l[0] == what, l[1] is not None and key_eq(l[1], s.sup)))
            E.prove("%s: the range of the variable" % l[2], And(eq(l[3], sh.get(l[2])), eq(l[4], sp.get(l[2]))))
            now = s.counts().get(s.sup).get("first").get(l[2])
            E.prove("%s: kept" % l[2], limits(now) is l[7] or eq(limits(now).n, l[7].n))
        return [l[5] for l in s.log if l[2] == "mSize_"][0]


@unit("VariableCountingVector::add", [C + "::add(std::shared_ptr<tvm::Variable>)", C + "::SpaceRangeCounting::add"])
def add_(E):
    s = Vector(E)
    n0 = s.count0.get(s.sup).get("second")
    r = E.call(C + "::add(std::shared_ptr<tvm::Variable>)", s.o, [E.local(Ptr(s.v.a, V))])
    change = s.called("add")
    E.prove("the change of what is covered is returned", eq(B(r), change))
    now = s.counts()
    E.prove("the super-variable has an entry", now.has(s.sup))
    for l in s.log:
        E.prove("a new entry starts empty", Implies(Not(s.had), eq(l[6].n, 0)))
    E.prove("the additions that change something are counted", eq(now.get(s.sup).get("second"), add(ite(s.had, n0, 0), ite(change, 1, 0))))
    E.prove("the other variables are the same", s.same_other())
    E.prove("to be computed again after a change", eq(B(s.f("upToDate_")), And(B(s.fresh0), Not(change), Not(s.split))))


@unit("VariableCountingVector::remove", [C + "::remove(const tvm::Variable &)", C + "::SpaceRangeCounting::remove"])
def remove_(E):
    s = Vector(E)
    n0 = s.count0.get(s.sup).get("second")
    empty = E.fresh("bool", "nothing left")
    E.stubs[RC + "::empty"] = lambda E, this, a, fn: (E.prove("emptiness of the size, after the removal", And(this.path[-1][1] == "mSize_", len(s.log) == 3)), empty)[1]
    r = E.call_x(C + "::remove(const tvm::Variable &)", s.o, [E.deref(s.v)])
    if r[0] != "ret":
        E.prove("refused only when nothing of the super-variable was added", Not(s.had))
        E.prove("refused: nothing is counted", not s.log)
        E.prove("refused: the same", And(s.same_other(), eq(s.counts().has(s.sup), s.had)))
        return
    E.prove("something of the super-variable was added", s.had)
    change = s.called("remove")
    E.prove("the change of what is covered is returned", eq(B(r[1]), change))
    now = s.counts().get(s.sup).get("second")
    E.prove("no change: the same counter", Implies(Not(change), eq(now, n0)))
    E.prove("nothing left: counted from zero", Implies(And(change, empty), eq(now, 0)))
    E.prove("parts left after a change: no longer a number of ranges", Implies(And(change, Not(empty)), lt(2 ** 31, now)))
    E.prove("the other variables are the same", s.same_other())
    E.prove("to be computed again after a change", eq(B(s.f("upToDate_")), And(B(s.fresh0), Not(change), Not(s.split))))


@unit("VariableCountingVector: several variables", [C + "::add(const tvm::VariableVector &)", C + "::remove(const tvm::VariableVector &)"])
def several(E):
    """each variable of the vector once, in order"""
    o = E.obj(C, "c")
    v = E.obj(VV, "v")
    vs = E.fld(v, "variables_")
    what = "add" if E.choose("added") else "remove"
    key = C + ("::add" if what == "add" else "::remove")
    done = E.local(0)

    def one(E, this, args, fn):
        x = lib.load(E, args[0]) if what == "add" else args[0]
        a = x.a if isinstance(x, Ptr) else x.root[1]
        E.prove("the next variable, on the same vector", And(lt(E.read(done), vs.n), eq(a, vs.get(E.read(done)).a), eq(this.root[1], o.a)))
        E.write(done, add(E.read(done), 1))
        return E.fresh("bool", "changes")
    E.forall(lambda k: Implies(And(le(0, k), lt(k, vs.n)), ne(vs.get(k).a, 0)))
    E.stubs[C + "::add(std::shared_ptr<tvm::Variable>)"] = one
    E.stubs[C + "::remove(const tvm::Variable &)"] = one
    E.loopinv[key] = loops.Ind(("one call per variable", lambda E, k, L: eq(E.read(done), k)))
    E.call(key + "(const tvm::VariableVector &)", o, [E.deref(v)])
    E.prove("all the variables", eq(E.read(done), vs.n))


@unit("VariableCountingVector::isDisjointUnion", [C + "::isDisjointUnion", C + "::SpaceRangeCounting::maxCount"])
def disjoint(E):
    o = E.obj(C, "c")
    counts = E.fld(o, "count_")
    x = E.sym("tvm::Variable *", "x")
    mx = z3.Function("maxCount", z3.IntSort(), z3.IntSort())
    E.mapkeys.append(x)
    met = []

    def most(E, this, args, fn):
        E.prove("the count of the size", this.path[-1][1] == "mSize_")
        met.append(entry(E, this).get("first"))
        E.fact(le(0, mx(I(met[-1].a))))
        return mx(I(met[-1].a))
    E.stubs[RC + "::maxCount"] = most
    E.loopinv[C + "::isDisjointUnion"] = loops.Ind(
        ("no variable so far has a count above one", lambda E, k, L: Implies(And(counts.has(x), lt(E.maploops[-1](x), k)), le(mx(I(x.a)), 1))))
    r = B(E.call(C + "::isDisjointUnion", o))
    E.prove("disjoint: no count above one", Implies(And(r, counts.has(x)), le(mx(I(x.a)), 1)))
    E.prove("not disjoint: a count above one", Or(r, *[And(counts.has(w), lt(1, mx(I(w.a)))) for w in met[-1:]]))


def entry(E, this):
    """the entry of the map a counting belongs to, within a loop over the map"""
    n = [i for i, st in enumerate(this.path) if st[0] == "f" and st[1] == "second"]
    return E.read(LV(this.root, this.path[:n[0]]))


class Pieces:
    """the ranges of each entry, the variables made from them and what is put in the result"""

    def __init__(s, E):
        s.E = E
        s.o = E.obj(C, "c")
        s.counts, s.split = E.fld(s.o, "count_"), B(E.fld(s.o, "split_"))
        i1, i2 = [z3.IntSort()], [z3.IntSort(), z3.IntSort()]
        s.num = z3.Function("pieces", *i1, z3.IntSort())
        s.fn = {(w, f): z3.Function("%s.%s" % (w, f), *i2, z3.IntSort()) for w in SPACES for f in ("start", "dim")}
        s.part = z3.Function("part", *([z3.IntSort()] * 8))
        s.prim = z3.Function("isBasePrimitive", *i1, z3.BoolSort())
        s.size = z3.Function("size of", *i1, z3.IntSort())
        s.x = E.sym("tvm::Variable *", "x")
        s.i = E.skolem("i")
        E.mapkeys.append(s.x)
        # ghost: variables put in the result, those that are the i-th piece of x and the place of the last of these
        s.total, s.times, s.pos, s.place, s.cur, s.cleared = [E.local(v) for v in (0, 0, -1, 0, 0, False)]
        E.fact(And(*s.shape(s.x.a, s.i)))
        for n, f in (("ranges", s.ranges),):
            E.stubs[RC + "::" + n] = f
        E.stubs[VV + "::clear"] = s.clear
        E.stubs[VV + "::add(std::shared_ptr<tvm::Variable>)"] = s.add
        E.stubs["tvm::Space::Space(int, int, int)"] = s.space
        E.stubs[V + "::isBasePrimitive"] = lambda E, this, a, fn: s.prim(I(this.root[1]))
        E.stubs[V + "::size"] = lambda E, this, a, fn: s.size(I(this.root[1]))
        E.stubs[V + "::subvariable"] = s.sub
        E.stubs[V + "::shared_from_this"] = lambda E, this, a, fn: Ptr(this.root[1], V)
        E.stubs["std::enable_shared_from_this<tvm::Variable>::shared_from_this"] = lambda E, this, a, fn: Ptr(this.root[1], V)

    def r(s, w, a, i):
        return s.fn[(w, "start")](I(a), I(i)), s.fn[(w, "dim")](I(a), I(i))

    def whole(s, a):
        """the only range of the entry is the whole variable: its dimension is that of the value"""
        p = s.prim(I(a))
        return And(eq(s.num(I(a)), 1), Or(And(p, eq(s.r("rSize_", a, 0)[1], s.size(I(a)))), And(Not(p), eq(s.r("tSize_", a, 0)[1], s.size(I(a))))))

    def shape(s, a, i):
        """what the contract of RangeCounting and the spaces give: ranges within the variable, and of spaces"""
        ms, md = s.r("mSize_", a, i)
        yield le(0, s.num(I(a)))
        for w in SPACES:
            yield And(le(ms, s.r(w, a, i)[0]), le(md, s.r(w, a, i)[1]))
        yield And(le(0, ms), le(0, md))
        w = ite(s.prim(I(a)), add(*s.r("rSize_", a, i)), add(*s.r("tSize_", a, i)))
        yield le(w, s.size(I(a)))
        yield Implies(Or(And(s.prim(I(a)), eq(s.r("rSize_", a, i)[0], 0)), And(Not(s.prim(I(a))), eq(s.r("tSize_", a, i)[0], 0))), eq(ms, 0))

    def piece(s, a, i):
        m, r, t = [s.r(w, a, i) for w in SPACES]
        return ite(s.whole(a), I(a), s.part(I(a), m[1], r[1], t[1], m[0], r[0], t[0]))

    def ranges(s, E, this, args, fn):
        e = entry(E, this)
        a = e.get("first").a
        w = [st[1] for st in this.path if st[0] == "f" and st[1] in SPACES][0]
        E.prove("pieces separated as requested", eq(B(lib.load(E, args[0])), s.split))
        E.write(s.cur, a)
        E.write(s.place, 0)
        E.assume(ne(a, 0))
        E.fact(And(*s.shape(a, 0)))
        v = Vec(s.num(I(a)), lambda k: Struct("tvm::Range", {"start": s.r(w, a, k)[0], "dim": s.r(w, a, k)[1]}), "tvm::Range")
        E.forall(lambda k: And(*s.shape(a, k)))
        return E.local(v, "std::vector<tvm::Range>")

    def clear(s, E, this, args, fn):
        E.prove("the result is emptied", And(eq(this.root[1], s.o.a), this.path[-1][1] == "variables_"))
        E.write(s.cleared, True)
        E.write(s.total, 0)

    def space(s, E, target, args, fn):
        """contract of the constructor (proved below)"""
        m, r, t = [lib.load(E, x) for x in args]
        E.prove("the sizes of a space", And(le(0, m), le(m, r), le(m, t)))
        return Struct("tvm::Space", {"mSize_": m, "rSize_": r, "tSize_": t, "type_": E.fresh("int", "type")})

    def sub(s, E, this, args, fn):
        sp, sh = [lib.load(E, x) for x in args[:2]]
        return Ptr(s.part(I(this.root[1]), *[I(z.get(w)) for z in (sp, sh) for w in SPACES]), V)

    def add(s, E, this, args, fn):
        v = lib.load(E, args[0])
        a, p = E.read(s.cur), E.read(s.place)
        E.prove("on the result", this.path[-1][1] == "variables_")
        E.prove("the next piece of the super-variable", And(lt(p, s.num(I(a))), eq(v.a, s.piece(a, p))))
        here = And(eq(a, s.x.a), eq(p, s.i))
        E.write(s.times, add(E.read(s.times), ite(here, 1, 0)))
        E.write(s.pos, ite(here, E.read(s.total), E.read(s.pos)))
        E.write(s.total, add(E.read(s.total), 1))
        E.write(s.place, add(p, 1))
        return True

    def inv(s, upto):
        """the i-th piece of x is in the result once, if its turn came"""
        E = s.E
        sim = E.fld(s.o, "simple_")
        turn = And(s.counts.has(s.x), le(0, s.i), lt(s.i, s.num(I(s.x.a))), upto)
        E.index(E.read(s.pos))
        v = sim.get(E.read(s.pos)) if isz(sim.n) or sim.n else 0
        return [("as many flags as variables", And(eq(sim.n, E.read(s.total)), le(0, E.read(s.total)))),
                ("each piece once", eq(E.read(s.times), ite(turn, 1, 0))),
                ("the flag of the piece", Implies(turn, And(le(0, E.read(s.pos)), lt(E.read(s.pos), E.read(s.total)),
                                                           eq(ne(v, 0), eq(s.counts.get(s.x).get("second"), s.num(I(s.x.a)))))))]


@unit("VariableCountingVector::update", [C + "::update", C + "::variables", C + "::simple"], limit=4000)
def update(E):
    s = Pieces(E)
    fresh = B(E.fld(s.o, "upToDate_"))

    def loop(E, st):
        rank = E.maploops[-1]
        if loops.calls(st["body"], RC + "::ranges"):
            names = ["as many flags as variables", "each piece once", "the flag of the piece"]
            return loops.Ind(*[(n, lambda E, k, L, j=j: s.inv(lt(rank(s.x), k))[j][1]) for j, n in enumerate(names)])
        a = E.read(s.cur)
        before = rank(I(a))
        names = ["as many flags as variables", "each piece once", "the flag of the piece"]
        up = lambda k: Or(lt(rank(s.x), before), And(eq(s.x.a, a), lt(s.i, k)))
        return loops.Ind(("the next piece", lambda E, k, L: And(eq(E.read(s.place), k), eq(E.read(s.cur), a))),
                         *[(n, lambda E, k, L, j=j: s.inv(up(k))[j][1]) for j, n in enumerate(names)])
    E.loopinv[C + "::update"] = loop
    r = E.call(C + "::variables", s.o)
    E.prove("the result of the vector itself", And(eq(r.root[1], s.o.a), r.path[-1][1] == "variables_"))
    E.prove("up to date", B(E.fld(s.o, "upToDate_")))
    E.prove("computed again exactly when not up to date", eq(B(E.read(s.cleared)), Not(fresh)))
    if E.must(fresh):
        return
    for n, c in s.inv(True):
        E.prove("all entries: " + n, c)
    w = s.whole(s.x.a)
    E.prove("the whole variable is what its only range covers", Implies(And(w, eq(s.i, 0)), And(
        Implies(s.prim(I(s.x.a)), eq(s.r("rSize_", s.x.a, 0)[0], 0)), Implies(Not(s.prim(I(s.x.a))), eq(s.r("tSize_", s.x.a, 0)[0], 0)))))
    times = E.read(s.times)
    q = E.call_x(C + "::simple", s.o)
    if q[0] != "ret":
        E.prove("flags refused when split", s.split)
        return
    E.prove("flags when not split", Not(s.split))
    E.prove("the flags of the result", eq(q[1].n if isinstance(q[1], Vec) else E.read(q[1]).n, E.read(s.total)))


@unit("VariableCountingVector::clear", [C + "::clear"])
def clear(E):
    o = E.obj(C, "c")
    split = E.fld(o, "split_")
    x = E.sym("tvm::Variable *", "x")
    E.call(C + "::clear", o)
    E.prove("nothing is counted", Not(E.fld(o, "count_").has(x)))
    E.prove("to be computed again", Not(B(E.fld(o, "upToDate_"))))
    E.prove("the same separation", eq(B(E.fld(o, "split_")), B(split)))


@unit("Space::Space", ["tvm::Space::Space(int, int, int)"])
def space(E):
    m, r, t = [E.input(n, E.fresh("int", n)) for n in ("m", "r", "t")]
    E.assume(And(le(0, m), le(m, r), le(m, t)))
    x = E.deref(E.construct("tvm::Space", [m, r, t]))
    x = E.read(x)
    E.prove("the sizes given", And(eq(x.get("mSize_"), m), eq(x.get("rSize_"), r), eq(x.get("tSize_"), t)))
