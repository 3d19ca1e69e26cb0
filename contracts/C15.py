"""C15: substituting variables preserves the solutions of the equality constraints."""
from engine.run import unit
from values import *
import lib
import loops
TUS = ["src/hint/Substitution.cpp", "src/hint/DiagonalCalculator.cpp", "src/hint/SubstitutionCalculatorImpl.cpp", "src/hint/Substitutions.cpp"]
DRIVER = "C15.cpp"
SOURCES = None
DRIVER_S = 60
BOUNDED = "the elimination itself (SubstitutionUnit), the grouping of interdependent substitutions, the calculators based on a rank-revealing " \
          "factorisation and the filling of the aggregated matrix: random systems with chained, interdependent, partial and redundant " \
          "substitutions, zero rows, all right-hand sides, successive updates; the values given to the substituted variables satisfy, with the " \
          "additional constraints, the original equations exactly, and every solution of those is reached; ill-formed declarations are refused"
ASSUMPTIONS = ["the structure and constness declared for a matrix stay those of its later values",
               "coefficients of a matrix declared as rows of a diagonal one are not zero",
               "the lists of non-zero and zero rows given to the calculator are sorted and within the matrix, without repetition (its constructor checks it)"]
TRUSTED = ["Eigen's products and column-pivoting QR", "VariableVector::contains/intersects, Variable::intersects (C05, C04 are about them)", "std::vector, std::find_if"]
H = "tvm::hint::Substitution"
D = "tvm::hint::internal::DiagonalCalculator::Impl"
SCI = "tvm::hint::abstract::SubstitutionCalculatorImpl"
C = "tvm::constraint::abstract::Constraint"
FOP = "tvm::internal::FirstOrderProvider"
V = "tvm::Variable"
SS = "tvm::hint::internal::Substitutions"
VV = "tvm::VariableVector"


def dist(E, v, n, lab="pos"):
    pos = z3.Function("%s!%d" % (lab, E.fresh_id()), z3.IntSort(), z3.IntSort())
    E.forall(lambda i: Implies(And(le(0, i), lt(i, n)), eq(pos(I(v.get(i).a)), i)))
    return pos


@unit("Substitution::check: what is accepted", [H + "::check"], limit=4000)
def check_refuses(E):
    check(E, False)


@unit("Substitution::check: a well-formed substitution is accepted", [H + "::check"], limit=4000)
def check_accepts(E):
    check(E, True)


def check(E, ok):
    o = E.obj(H, "substitution")
    cs, xs = E.fld(o, "constraints_"), E.fld(o, "x_")
    nc, nx = E.input("constraints", cs.n), E.input("variables", xs.n)
    rank, m = E.input("rank", E.fld(o, "rank_")), E.input("equations", E.fld(o, "m_"))
    Z, Bo = z3.IntSort(), z3.BoolSort()
    i_ = E.fresh_id()
    meet_ = z3.Function("meet!%d" % i_, Z, Z, Bo)
    has_ = z3.Function("contains!%d" % i_, Z, Z, Bo)
    part_ = z3.Function("intersects!%d" % i_, Z, Z, Bo)
    vars_ = z3.Function("vars!%d" % i_, Z, Z)
    inv_ = z3.Function("cstr of vars!%d" % i_, Z, Z)
    type_ = z3.Function("type!%d" % i_, Z, Z)
    size_ = z3.Function("size!%d" % i_, Z, Z)
    addr = lambda v: I(simp(E.mkptr(v).a if isinstance(v, LV) else v.a))
    for v in (cs, xs):
        E.forall(lambda k, v=v: Implies(And(le(0, k), lt(k, v.n)), ne(v.get(k).a, 0)))
    EQ = E.prog.enums["tvm::constraint::Type"]["EQUAL"]
    # well-formed: (universal facts over the pointers held, stated where they are looked at)
    E.stubs[C + "::type"] = lambda E, this, a, fn: EQ if ok else type_(addr(this))
    E.stubs[V + "::intersects"] = lambda E, this, a, fn: eq(addr(this), addr(a[0])) if ok else meet_(addr(this), addr(a[0]))
    E.stubs[V + "::size"] = lambda E, this, a, fn: size_(addr(this))

    def variables(E, this, a, fn):
        p = vars_(addr(this))
        E.fact(And(p != 0, inv_(p) == addr(this)))
        return E.deref(Ptr(p, VV))
    E.stubs[FOP + "::variables"] = variables
    # reason for a flag: there is a constraint (variable) of the substitution that contains it (that it contains)
    upv = [z3.Function("reason %d!%d" % (q, i_), Z, Bo) for q in (0, 1)]
    up = lambda q, j: upv[q](x(j) if q == 0 else c(j))

    def contains(E, this, a, fn):
        p, q = inv_(addr(this)), addr(a[0])
        E.fact(Implies(has_(p, q), And(upv[0](q), upv[1](p))))
        return has_(p, q)

    def partly(E, this, a, fn):
        p, q = inv_(addr(this)), addr(a[0])
        return has_(p, q) if ok else part_(p, q)
    E.stubs[VV + "::contains"] = contains
    E.stubs[VV + "::intersects"] = partly
    def raw(v, k):
        """the address held at k, without registering k for instantiation (indices that are ghosts' values)"""
        n, seen = len(E.idx), set(E.idxset)
        r = I(v.get(k).a)
        del E.idx[n:]
        E.idxset.clear()
        E.idxset.update(seen)
        return r
    c, x = lambda k: raw(cs, k), lambda k: raw(xs, k)
    # ghost: a constraint that contains variable j, a variable constraint i contains, if there is one
    cw, xw = z3.Function("cw!%d" % i_, Z, Z), z3.Function("xw!%d" % i_, Z, Z)
    inc, inx = lambda k: And(le(0, k), lt(k, nc)), lambda k: And(le(0, k), lt(k, nx))
    good = {
        "every constraint is an equality": lambda i, j: Implies(inc(i), eq(type_(c(i)), EQ)),
        "the variables do not intersect": lambda i, j: Implies(And(inx(i), inx(j), lt(i, j)), Not(meet_(x(i), x(j)))),
        "no constraint contains only a part of a variable": lambda i, j: Implies(And(inc(i), inx(j), part_(c(i), x(j))), has_(c(i), x(j))),
    }
    some = {
        "every variable is in a constraint": lambda j: Implies(inx(j), And(inc(cw(I(j))), has_(c(cw(I(j))), x(j)))),
        "every constraint contains a variable": lambda i: Implies(inc(i), And(inx(xw(I(i))), has_(c(i), x(xw(I(i)))))),
    }
    fine = And(le(rank, loops.isum(E, nx, lambda j: size_(x(j)))), le(0, rank), le(rank, m))
    if ok:
        dist(E, xs, nx)
        for f in some.values():
            E.forall(lambda k, f=f: f(k))
        E.assume(fine)
    # state of the flags in the loop over the constraints: what was seen of constraints before i, and of variables before j
    name = H + "::check"
    vname, cname = "varIsInOneConstr", "constrHasOneVar"

    def flags(E):
        fr = {v.get("name") if isinstance(v, dict) else None: v for v in ()}
        vs = [E.read(lv) for i, lv in E.env.items() if i != "frame" and isinstance(lv, LV) and lv.root[0] == "l" and not lv.path
              and isinstance(E.store.get(lv.root), Vec)]
        vs = [v for v in vs if getattr(v, "et", None) == "bool"]
        if len(vs) != 2:
            raise Unsupported("the flags of check")
        return vs
    seenv = z3.Function("seen constraint of variable!%d" % i_, Z, Z)
    seenx = z3.Function("seen variable of constraint!%d" % i_, Z, Z)
    at = {}

    # flags are raised only for a reason, and whenever there is one
    sizes = ("one flag each", lambda E, k, L: And(*[eq(f.n, n) for f, n in zip(flags(E), (nx, nc))]))
    reason = [("variables flagged for a reason", lambda E, k, L, j: Implies(And(inx(j), flags(E)[0].get(j)), up(0, j)), "all"),
              ("constraints flagged for a reason", lambda E, k, L, j: Implies(And(inc(j), flags(E)[1].get(j)), up(1, j)), "all")]
    whole = (lambda i, j: True) if ok else good["no constraint contains only a part of a variable"]
    # what the constraints before i have flagged
    vdone = lambda E, i, j: Implies(And(inx(j), le(0, cw(I(j))), lt(cw(I(j)), i), has_(c(cw(I(j))), x(j))), flags(E)[0].get(j))
    cdone = lambda E, i, j: Implies(And(inc(j), lt(j, i), inx(xw(I(j))), has_(c(j), x(xw(I(j))))), flags(E)[1].get(j))
    outer_i = loops.Ind(sizes, *reason, ("variables flagged", lambda E, k, L, j: vdone(E, k, j), "all"),
                        ("constraints flagged", lambda E, k, L, j: cdone(E, k, j), "all"),
                        ("no part", lambda E, k, L, j: Implies(And(lt(j, k), inx(jx)), whole(j, jx)), "all"))

    def inner_i(i):
        return loops.Ind(sizes, *reason, ("variables flagged", lambda E, k, L, j: vdone(E, i, j), "all"),
                         ("constraints flagged", lambda E, k, L, j: cdone(E, i, j), "all"),
                         ("variables of this constraint flagged", lambda E, k, L, j: Implies(And(inx(j), lt(j, k), has_(c(i), x(j))), flags(E)[0].get(j)), "all"),
                         ("this constraint flagged", lambda E, k, L: Implies(And(inx(xw(I(i))), lt(xw(I(i)), k), has_(c(i), x(xw(I(i))))), flags(E)[1].get(i))),
                         ("no part here", lambda E, k, L, j: Implies(lt(j, k), whole(i, j)), "all"),
                         ("no part", lambda E, k, L, j: Implies(And(lt(j, i), inx(jx)), whole(j, jx)), "all"))

    apart = lambda i, j: True if ok else Implies(And(inx(i), inx(j), lt(i, j)), Not(meet_(x(i), x(j))))

    def choose_inv(E, s):
        if loops.calls(s, C + "::type"):
            return loops.Ind(("equalities", lambda E, k, L: ok or Implies(And(inc(ix), lt(ix, k)), eq(type_(c(ix)), EQ))))
        if loops.calls(s, V + "::intersects"):
            if loops.nested(s):
                at["outer"] = loops.assigned_vars(s["inc"], [])[0][0]
                return loops.Ind(("apart", lambda E, k, L: Implies(lt(ix, k), apart(ix, jx))))
            i = E.read(E.env[at["outer"]])
            return loops.Ind(("apart", lambda E, k, L: And(Implies(lt(ix, i), apart(ix, jx)), Implies(And(eq(ix, i), lt(jx, add(add(i, 1), k))), apart(ix, jx)))))
        if not loops.calls(s, VV + "::contains"):
            return None
        if loops.nested(s):
            at["outer"] = loops.assigned_vars(s["inc"], [])[0][0]
            return outer_i
        return inner_i(E.read(E.env[at["outer"]]))
    E.loopinv[name] = choose_inv
    jx = E.skolem("j")
    ix = E.skolem("i")
    E.index(nx)
    r = E.call_x(name, o)
    if ok:
        E.prove("a well-formed substitution is accepted", r[0] == "ret")
        return
    if r[0] != "ret":
        return
    for l, f in good.items():
        E.prove("accepted: " + l, f(ix, jx))
    E.prove("accepted: every variable is in a constraint", Implies(inx(jx), up(0, jx)))
    E.prove("accepted: every constraint contains a variable", Implies(inc(ix), up(1, ix)))
    E.prove("accepted: the rank is possible", fine)


# ---------------------------------------------------------------- construction of a substitution

def cstr_sizes(E, cs):
    size_ = z3.Function("equations!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())
    E.forall(lambda k: Implies(And(le(0, k), lt(k, cs.n)), And(ne(cs.get(k).a, 0), le(0, size_(I(cs.get(k).a))))))
    addr = lambda v: I(simp(E.mkptr(v).a if isinstance(v, LV) else v.a))
    size = lambda E, this, a, fn: size_(addr(this))
    for n in (C + "::size", FOP + "::size", "tvm::internal::FirstOrderProvider::size"):
        E.stubs[n] = size
    return lambda j: size_(I(cs.get(j).a))


@unit("Substitution::Substitution", [H + "::Substitution"])
def make(E):
    cs = E.sym("std::vector<std::shared_ptr<tvm::constraint::abstract::LinearConstraint>>", "constraints")
    xs = E.sym("std::vector<std::shared_ptr<tvm::Variable>>", "variables")
    size = cstr_sizes(E, cs)
    rank = E.input("rank", E.fresh("int", "rank"))
    total = loops.isum(E, cs.n, size)
    log = []
    E.stubs[H + "::check"] = lambda E, this, a, fn: log.append(("check", E.fld(this, "rank_"), E.fld(this, "m_"), E.fld(this, "constraints_"), E.fld(this, "x_")))

    def impl(E, this, a, fn):
        log.append(("impl", lib.load(E, a[2]), lib.load(E, a[0]), lib.load(E, a[1])))
        return Ptr(E.fresh("int", "impl"), SCI)
    E.stubs["tvm::hint::abstract::SubstitutionCalculator::impl"] = impl
    full = E.globals_val("tvm::constant::fullRank") if hasattr(E, "globals_val") else -1
    calc = E.deref(E.obj("tvm::hint::abstract::SubstitutionCalculator", "calculator"))
    f = [f for f in E.prog.byname[H + "::Substitution"] if len(f["params"]) == 4 and "vector" in f["params"][0]["t"] and "vector" in f["params"][1]["t"]]
    o = E.construct(H, [E.local(cs), E.local(xs), rank, calc], fn=f[0]["key"])
    r = ite(eq(rank, full), total, rank)
    E.prove("the rank is the one given, or the number of equations", eq(E.fld(o, "rank_"), r))
    E.prove("the number of equations is the sum of the sizes", eq(E.fld(o, "m_"), total))
    E.prove("the check is made on the complete object, before the calculator is created",
            [l[0] for l in log] == ["check", "impl"] and And(eq(log[0][1], r), eq(log[0][2], total), eq(log[0][3].n, cs.n), eq(log[0][4].n, xs.n), eq(log[1][1], r)))


# ---------------------------------------------------------------- calculators for rows of diagonal matrices

def diag(E):
    o = E.obj(D, "calculator")
    nnz, innz, cnnz = E.fld(o, "nnz_"), E.fld(o, "innz_"), E.fld(o, "cnnz_")
    zeros, izeros = E.fld(o, "zeros_"), E.fld(o, "izeros_")
    m, n, r = [E.fld(o, f) for f in ("m_", "n_", "r_")]
    inverse = E.asmat(E.fld(o, "inverse_"))
    # class invariant (established by build): nnz_ and cnnz_ partition the columns, innz_ and izeros_ the rows
    E.assume(And(le(0, r), le(r, n), le(r, m), eq(nnz.n, r), eq(innz.n, r), eq(cnnz.n, sub(n, r)), eq(izeros.n, sub(m, r)), eq(zeros.n, izeros.n),
                 eq(inverse.r, r), eq(inverse.c, 1)))
    for lab, a, b, size in (("column", nnz, cnnz, n), ("row", innz, izeros, m)):
        own = z3.Function("owner of %s!%d" % (lab, E.fresh_id()), z3.IntSort(), z3.IntSort())
        for v, s in ((a, 1), (b, -1)):
            E.forall(lambda k, v=v, s=s, size=size, own=own: Implies(And(le(0, k), lt(k, v.n)), And(
                le(0, v.get(k)), lt(v.get(k), size), eq(own(I(v.get(k))), mul(s, add(k, 1))))))
    return o, nnz, innz, cnnz, izeros, (m, n, r), inverse


def out_mat(E, name, r, c):
    m = E.sym("Eigen::Matrix<double, -1, -1>", name)
    E.assume(And(eq(m.r, r), eq(m.c, c)))
    lv = E.local(m)
    return lv, E.local(View(lv, 0, 0, r, c)), m


@unit("DiagonalCalculator::Impl::premultiplyByASharpAndSTranspose_", [D + "::premultiplyByASharpAndSTranspose_"])
def pre(E):
    o, nnz, innz, cnnz, izeros, (m, n, r), inverse = diag(E)
    q = E.fresh("int", "columns")
    E.assume(le(0, q))
    A, a, _ = out_mat(E, "outA", n, q)
    S, s, _ = out_mat(E, "outS", sub(m, r), q)
    M, i, inm = out_mat(E, "in", m, q)
    minus = E.input("minus", E.fresh("bool", "minus"))
    c = E.skolem("c")
    E.assume(And(le(0, c), lt(c, q)))
    sg = ite(minus, Fraction(-1), Fraction(1))
    at = lambda lv, i, j: E.asmat(lv).at(simp(i), j)
    sizes = lambda E, k, L: And(eq(E.asmat(A).r, n), eq(E.asmat(A).c, q))
    ssizes = lambda E, k, L: And(eq(E.asmat(S).r, sub(m, r)), eq(E.asmat(S).c, q))
    isnz = lambda E, k, j: Implies(And(le(0, j), lt(j, k), lt(j, r)), eq(at(A, nnz.get(j), c), mul(sg, mul(inverse.get(j, 0), inm.get(innz.get(j), c)))))
    isz_ = lambda E, k, j: Implies(And(le(0, j), lt(j, k), lt(j, cnnz.n)), eq(at(A, cnnz.get(j), c), 0))
    isS = lambda E, k, j: Implies(And(le(0, j), lt(j, k), lt(j, izeros.n)), eq(at(S, j, c), inm.get(izeros.get(j), c)))
    E.loopinv[D + "::premultiplyByASharpAndSTranspose_"] = [
        loops.Ind(("sizes", sizes), ("rows with a coefficient", lambda E, k, L, j: isnz(E, k, j), "all")),
        loops.Ind(("sizes", sizes), ("rows with a coefficient", lambda E, k, L, j: isnz(E, r, j), "all"), ("other rows", lambda E, k, L, j: isz_(E, k, j), "all")),
        loops.Ind(("sizes", ssizes), ("equations left", lambda E, k, L, j: isS(E, k, j), "all"))]
    E.call(D + "::premultiplyByASharpAndSTranspose_", o, [a, s, i, minus])
    j = E.skolem("j")
    E.index(j)
    E.prove("+-A^# in: row nnz_j is the row of its equation divided by the coefficient", isnz(E, r, j))
    E.prove("+-A^# in: the other rows are zero", isz_(E, cnnz.n, j))
    E.prove("S^T in: the zero rows", isS(E, izeros.n, j))


@unit("DiagonalCalculator::Impl::postMultiplyByN_", [D + "::postMultiplyByN_"])
def post(E):
    o, nnz, innz, cnnz, izeros, (m, n, r), inverse = diag(E)
    q = E.fresh("int", "rows")
    E.assume(le(0, q))
    O, out, om = out_mat(E, "out", q, sub(n, r))
    M, i, inm = out_mat(E, "in", q, n)
    plus = E.input("add", E.fresh("bool", "add"))
    c = E.skolem("c")
    E.assume(And(le(0, c), lt(c, q)))
    val = lambda j, done: add(ite(And(done, Not(plus)), Fraction(0), om.get(c, j)), ite(done, inm.get(c, cnnz.get(j)), Fraction(0)))
    sizes = lambda E, k, L: And(eq(E.asmat(O).r, q), eq(E.asmat(O).c, sub(n, r)))
    prop = lambda E, k, L, j: Implies(And(le(0, j), lt(j, cnnz.n)), eq(E.asmat(O).at(c, j), val(j, lt(j, k))))
    f = [f for f in E.prog.byname[D + "::postMultiplyByN_"] if len(f["params"]) == 3][0]
    E.loopinv[D + "::postMultiplyByN_"] = loops.Ind(("sizes", sizes), ("columns", prop, "all"))
    E.call(f["key"], o, [out, i, plus])
    j = E.skolem("j")
    E.index(j)
    E.prove("in N: the columns without a coefficient", Implies(And(le(0, j), lt(j, cnnz.n)), eq(E.asmat(O).at(c, j), add(
        ite(plus, om.get(c, j), Fraction(0)), inm.get(c, cnnz.get(j))))))


@unit("DiagonalCalculator::Impl::update_", [D + "::update_"])
def upd(E):
    o, nnz, innz, cnnz, izeros, (m, n, r), inverse = diag(E)
    A = E.sym("Eigen::Matrix<double, -1, -1>", "A")
    E.assume(And(eq(A.r, m), eq(A.c, n)))
    al = E.local(A)
    cs = E.fld(o, "constraints_")
    E.assume(And(eq(cs.n, 1), ne(cs.get(0).a, 0)))
    E.stubs[FOP + "::jacobian"] = lambda E, this, a, fn: al
    E.stubs[VV + "::operator[]"] = lambda E, this, a, fn: Ptr(E.memo.setdefault("x0", 77), V)
    E.forall(lambda k: Implies(And(le(0, k), lt(k, r)), ne(A.get(innz.get(k), nnz.get(k)), 0)))
    st = lambda: E.asmat(E.fld(o, "inverse_"))
    E.loopinv[D + "::update_"] = loops.Ind(("sizes", lambda E, k, L: And(eq(st().r, r), eq(st().c, 1))),
                                           ("inverses", lambda E, k, L, j: Implies(And(lt(j, k), lt(j, r)), eq(st().at(j, 0), rdiv(Fraction(1), A.get(innz.get(j), nnz.get(j))))), "all"))
    E.call(D + "::update_", o)
    j = E.skolem("j")
    E.index(j)
    E.prove("inverse of the coefficient of every row", Implies(And(le(0, j), lt(j, r)), eq(st().at(j, 0), rdiv(Fraction(1), A.get(innz.get(j), nnz.get(j))))))
    E.prove("one per row", eq(st().r, r))


@unit("DiagonalCalculator::Impl::build", [D + "::build"])
def build(E):
    o = E.obj(D, "calculator")
    m, n = E.fld(o, "m_"), E.fld(o, "n_")
    nnz, cnnz, zeros = E.fld(o, "nnz_"), E.fld(o, "cnnz_"), E.fld(o, "zeros_")
    E.assume(And(le(0, n), le(0, m), le(nnz.n, n), eq(cnnz.n, sub(n, nnz.n))))
    N = E.asmat(E.fld(o, "N_"))
    E.assume(And(eq(N.r, n), eq(N.c, cnnz.n)))
    for f in ("innz_", "izeros_"):
        E.setfld(o, f, Vec(0, lambda k: 0, "long", f))
    for v in (nnz, cnnz, zeros):
        E.forall(lambda i, v=v: Implies(And(le(0, i), lt(i, v.n)), And(le(0, v.get(i)), lt(v.get(i), n))))
    st = lambda f: E.fld(o, f)
    row, col = E.skolem("row"), E.skolem("col")
    E.assume(And(le(0, row), lt(row, n), le(0, col), lt(col, cnnz.n)))
    # which rows are in nnz_, in zeros_, and how many of each there are before a row
    Z = z3.IntSort()
    fun = lambda s, r: z3.Function("%s!%d" % (s, E.fresh_id()), Z, r)
    mem = [fun("in nnz", z3.BoolSort()), fun("in zeros", z3.BoolSort())]
    pos = [fun("position in nnz", Z), fun("position in zeros", Z)]
    cnt = [fun("nnz before", Z), fun("zeros before", Z)]
    for q, v in ((0, nnz), (1, zeros)):
        E.forall(lambda k, q=q, v=v: And(
            Implies(And(le(0, k), lt(k, v.n)), And(mem[q](I(vget(E, v, k))), eq(pos[q](I(vget(E, v, k))), k))),
            Implies(mem[q](I(k)), And(le(0, pos[q](I(k))), lt(pos[q](I(k)), v.n), eq(vget(E, v, pos[q](I(k))), k)))))
        E.fact(eq(cnt[q](0), 0))
    isz = lambda i: And(mem[1](I(i)), Not(mem[0](I(i))))
    E.forall(lambda i: Implies(le(0, i), And(le(0, cnt[0](I(i))), le(0, cnt[1](I(i))),
                                             eq(cnt[0](I(i) + 1), add(cnt[0](I(i)), ite(mem[0](I(i)), 1, 0))),
                                             eq(cnt[1](I(i) + 1), add(cnt[1](I(i)), ite(isz(i), 1, 0))))))
    place = lambda i: add(cnt[0](I(i)), cnt[1](I(i)))

    def flags(E):
        vs = [E.read(lv) for i, lv in E.env.items() if i != "frame" and isinstance(lv, LV) and lv.root[0] == "l" and not lv.path
              and isinstance(E.store.get(lv.root), Vec)]
        return [v for v in vs if getattr(v, "et", None) == "bool"]

    def flag(q):
        return loops.Ind(("one flag per row", lambda E, k, L: eq(flags(E)[q].n, n)),
                         ("rows so far", lambda E, k, L, j: Implies(lt(j, n), eq(B(flags(E)[q].get(j)), And(mem[q](I(j)), lt(pos[q](I(j)), k)))), "all"))
    # at the row of interest: the entry pushed there stays
    at = lambda E, k, i: And(Implies(And(lt(i, k), mem[0](I(i))), And(lt(cnt[0](I(i)), st("innz_").n), eq(st("innz_").get(cnt[0](I(i))), place(i)))),
                             Implies(And(lt(i, k), isz(i)), And(lt(cnt[1](I(i)), st("izeros_").n), eq(st("izeros_").get(cnt[1](I(i))), place(i)))))
    E.loopinv[D + "::build"] = [
        loops.Ind(("size", lambda E, k, L: And(eq(E.asmat(st("N_")).r, n), eq(E.asmat(st("N_")).c, cnnz.n))),
                  ("selection", lambda E, k, L: eq(E.asmat(st("N_")).at(row, col), ite(And(lt(col, k), eq(row, cnnz.get(col))), Fraction(1), Fraction(0))))),
        flag(0), flag(1),
        loops.Ind(("place", lambda E, k, L: eq(L[0], place(k)) if len(L) == 1 else False),
                  ("counts", lambda E, k, L: And(eq(st("innz_").n, cnt[0](I(k))), eq(st("izeros_").n, cnt[1](I(k))))),
                  ("places so far", lambda E, k, L: at(E, k, row)))]
    E.index(n)
    r = E.call_x(D + "::build", o)
    if r[0] != "ret":
        E.prove("refused exactly when the number of rows is not the one of the constraint", ne(place(n), m))
        return
    E.prove("accepted exactly when the number of rows is the one of the constraint", eq(place(n), m))
    E.prove("N selects the columns without a coefficient", eq(E.asmat(st("N_")).at(row, col), ite(eq(row, cnnz.get(col)), Fraction(1), Fraction(0))))
    E.prove("row of the constraint in which each coefficient is, and zero rows", at(E, n, row))
    E.prove("one inverse per coefficient", eq(E.asmat(st("inverse_")).r, nnz.n))


def vget(E, v, k):
    """v[k] without registering k"""
    n, seen = len(E.idx), set(E.idxset)
    r = v.get(k)
    del E.idx[n:]
    E.idxset.clear()
    E.idxset.update(seen)
    return r


# ---------------------------------------------------------------- what the calculators share

def sci(E):
    o = E.obj(SCI, "calculator")
    m, n, r = [E.fld(o, f) for f in ("m_", "n_", "r_")]
    N = E.asmat(E.fld(o, "N_"))
    E.assume(And(le(0, r), le(r, n), le(r, m)))
    return o, m, n, r, N


@unit("SubstitutionCalculatorImpl::update", [SCI + "::update"])
def sci_update(E):
    o, m, n, r, N = sci(E)
    E.assume(eq(N.r, n))
    const, init = E.input("constant", E.fld(o, "constant_")), E.input("first", E.fld(o, "init_"))
    done = []
    c2 = E.fresh("int", "columns")

    def upd_(E, this, a, fn):
        done.append(1)
        M = E.sym("Eigen::Matrix<double, -1, -1>", "N")
        E.assume(And(eq(M.r, n), eq(M.c, c2)))
        E.setfld(o, "N_", M)
    E.stubs[SCI + "::update_"] = upd_
    x = E.call_x(SCI + "::update", o)
    need = Or(Not(const), init)
    E.prove("computed when A changes or was not yet", eq(need, bool(done)))
    if x[0] == "throw":
        E.prove("a change of rank is refused", And(need, ne(c2, sub(n, r))))
    else:
        E.prove("the computations are done once when A is constant", Implies(need, Not(E.fld(o, "init_"))))
        E.prove("the null space has the size of the rank declared", Implies(need, eq(E.asmat(E.fld(o, "N_")).c, sub(n, r))))


@unit("SubstitutionCalculatorImpl::postMultiplyByN", [SCI + "::postMultiplyByN", SCI + "::postMultiplyByN_"])
def sci_post(E):
    o, m, n, r, N = sci(E)
    E.assume(And(eq(N.r, n), eq(N.c, sub(n, r))))
    q = E.fresh("int", "rows")
    E.assume(le(0, q))
    ranged = E.choose("rows of N")
    start, dim = E.input("start", E.fresh("int", "start")), E.input("dim", E.fresh("int", "dim"))
    if ranged:
        E.assume(And(le(0, start), le(0, dim), le(add(start, dim), n)))
    else:
        start, dim = 0, n
    O, out, om = out_mat(E, "out", q, sub(n, r))
    M, i, inm = out_mat(E, "in", q, dim)
    plus = E.input("add", E.fresh("bool", "add"))
    E.stubs["(anonymous namespace)::noAliasing"] = lambda E, this, a, fn: True
    fs = {len(f["params"]): f["key"] for f in E.prog.byname[SCI + "::postMultiplyByN"]}
    R = Struct("tvm::Range", {"start": start, "dim": dim})
    if ranged:
        E.call(fs[4], o, [out, i, E.local(R), plus])
    else:
        E.call(fs[3], o, [out, i, plus])
    a, b = E.skolem("a"), E.skolem("b")
    E.assume(And(le(0, a), lt(a, q), le(0, b), lt(b, sub(n, r))))
    want = E.msum(dim, lambda k: mul(inm.get(a, k), N.get(simp(add(start, k)), b)))
    E.prove("out (+)= in N(rows)", eq(E.asmat(E.read(O)).at(a, b), add(ite(plus, om.get(a, b), Fraction(0)), want)))


# ---------------------------------------------------------------- the list of substitutions of a problem

@unit("Substitutions::updateVariableValues", [SS + "::updateVariableValues"])
def values_back(E):
    o = E.obj(SS, "substitutions")
    xs, fs = E.fld(o, "variables_"), E.fld(o, "varSubstitutions_")
    n = xs.n
    E.assume(eq(fs.n, n))
    pv = dist(E, xs, n, "variable")
    pf = dist(E, fs, n, "function")
    for v in (xs, fs):
        E.forall(lambda k, v=v: Implies(And(le(0, k), lt(k, n)), ne(v.get(k).a, 0)))
    addr = lambda v: I(simp(E.mkptr(v).a if isinstance(v, LV) else v.a))
    # ghost: the function updated last, and the function whose value each variable was given
    last = E.local(0)
    given = E.local(Vec(n, lambda k: 0, "int", "given"))
    val = z3.Function("value!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    rows = z3.Function("rows!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())
    cur = {}

    def updateValue(E, this, a, fn):
        E.write(last, addr(this))

    def value(E, this, a, fn):
        p = addr(this)
        E.prove("the value that is used is up to date", eq(E.read(last), p))
        E.memo[("value of", p.get_id())] = p
        cur["f"] = p
        return E.local(Mat(rows(p), 1, lambda i, j: val(p, I(i)), "vec"))

    def set_(E, this, a, fn):
        m, t = E.asmat(a[0]), E.skolem("t")
        f, k = cur["f"], pv(addr(this))
        E.prove("the value is the one of the function, unchanged", And(eq(m.r, rows(f)), Implies(And(le(0, t), lt(t, m.r)), eq(m.get(t, 0), val(f, t)))))
        g = E.read(given)
        E.write(given, Vec(g.n, lambda j: ite(eq(j, k), f, g.get(j)), "int", "given"))
    E.stubs["tvm::function::abstract::LinearFunction::updateValue"] = updateValue
    E.stubs[FOP + "::value"] = value
    E.stubs[V + "::set"] = set_
    done = lambda E, k, j: Implies(And(le(0, j), lt(j, k)), eq(E.read(given).get(j), I(fs.get(j).a)))
    E.loopinv[SS + "::updateVariableValues"] = loops.Ind(("one entry each", lambda E, k, L: eq(E.read(given).n, n)),
                                                        ("given so far", lambda E, k, L, j: Implies(lt(j, n), done(E, k, j)), "all"))
    E.call(SS + "::updateVariableValues", o)
    j = E.skolem("j")
    E.prove("every substituted variable is given the value of its own function, just updated", done(E, n, j))


@unit("Substitutions::uses, getSubstitutionFor", [SS + "::uses", SS + "::getSubstitutionFor"])
def uses(E):
    o = E.obj(SS, "substitutions")
    ss = E.fld(o, "substitutions_")
    p = E.fresh("int", "c")
    E.assume(lt(0, p))
    i, j = E.skolem("i"), E.skolem("j")
    cs = lambda k: ss.get(k).get("constraints_")
    held = lambda a, b: And(le(0, a), lt(a, ss.n), le(0, b), lt(b, cs(a).n), eq(cs(a).get(b).a, p))
    mem = z3.Function("member!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    inside = lambda a, b: And(le(0, a), lt(a, ss.n), le(0, b), lt(b, cs(a).n))
    some = z3.Function("member of one!%d" % E.fresh_id(), z3.IntSort(), z3.BoolSort())
    E.pairfacts.append(lambda a, b: Implies(inside(a, b), And(mem(I(a), I(cs(a).get(b).a)), some(I(cs(a).get(b).a)))))
    at = {}

    def inv(E, s):
        if s.get("k") == "ForRange" and (loops.nested(s) or not loops.calls(s["range"], H + "::constraints")):
            at["var"] = s["var"]["id"]
            return loops.Ind(("not in the ones before", lambda E, k, L: Not(And(lt(i, k), held(i, j)))))
        if s.get("k") == "ForRange":
            x = E.env[at["var"]]
            i0 = x.path[-1][1]
            return loops.Ind(("not before", lambda E, k, L: Not(And(Or(lt(i, i0), And(eq(i, i0), lt(j, k))), held(i, j)))))
    E.loopinv[SS + "::uses"] = inv
    E.loopinv[SS + "::getSubstitutionFor"] = inv
    if E.choose("uses"):
        r = B(E.call(SS + "::uses", o, [E.local(Ptr(p, "tvm::constraint::abstract::LinearConstraint"))]))
        E.prove("a constraint of a substitution is used", Implies(held(i, j), r))
        E.prove("only those are", Implies(r, some(p)))
        return
    r = E.call(SS + "::getSubstitutionFor", o, [E.deref(Ptr(p, "tvm::constraint::abstract::LinearConstraint"))])
    r = E.read(r) if isinstance(r, LV) else r
    if isinstance(r, Ptr):
        E.prove("null only when no substitution has the constraint", Implies(held(i, j), ne(r.a, 0)))
        return
    f = r.lv.path[-1][1]
    E.prove("a substitution of the list that has the constraint is found", And(le(0, f), lt(f, ss.n), mem(I(f), p)))


@unit("dependsOn", ["tvm::hint::internal::dependsOn"])
def depends(E):
    s, t = E.deref(E.obj(H, "s")), E.deref(E.obj(H, "t"))
    cs, xs = E.fld(s, "constraints_"), E.fld(t, "x_")
    for v in (cs, xs):
        E.forall(lambda k, v=v: Implies(And(le(0, k), lt(k, v.n)), ne(v.get(k).a, 0)))
    addr = lambda v: I(simp(E.mkptr(v).a if isinstance(v, LV) else v.a))
    fresh = E.fresh_id()
    Z = z3.IntSort()
    meets = z3.Function("intersects!%d" % fresh, Z, Z, z3.BoolSort())
    vars_, inv_ = [z3.Function("%s!%d" % (q, fresh), Z, Z) for q in ("variables of", "constraint of variables")]
    some = E.fresh("bool", "a constraint of s has a part of a variable of t")

    def variables(E, this, a, fn):
        p = vars_(addr(this))
        E.fact(And(p != 0, inv_(p) == addr(this)))
        return E.deref(Ptr(p, VV))

    def cross(E, this, a, fn):
        r = meets(inv_(addr(this)), addr(a[0]))
        E.fact(Implies(r, some))
        return r
    E.stubs[FOP + "::variables"] = variables
    E.stubs[VV + "::intersects"] = cross
    i, j = E.skolem("i"), E.skolem("j")
    part = And(le(0, i), lt(i, cs.n), le(0, j), lt(j, xs.n), meets(I(cs.get(i).a), I(xs.get(j).a)))
    at = {}

    # outer loop over one list, inner loop over the other
    def over(E, s):
        return "x" if loops.calls(s["range"], H + "::variables") else "c"

    def inv(E, s):
        if s.get("k") != "ForRange":
            return None
        me, other = (j, i) if over(E, s) == "x" else (i, j)
        if loops.nested(s):
            at["var"] = s["var"]["id"]
            return loops.Ind(("not in the ones before", lambda E, k, L: Not(And(lt(me, k), part))))
        x0 = E.env[at["var"]].path[-1][1]
        return loops.Ind(("not before", lambda E, k, L: Not(And(Or(lt(other, x0), And(eq(other, x0), lt(me, k))), part))))
    E.loopinv["tvm::hint::internal::dependsOn"] = inv
    r = B(E.call("tvm::hint::internal::dependsOn", None, [s, t]))
    E.prove("dependent as soon as a constraint of s has a part of a variable of t", Implies(part, r))
    E.prove("only then", Implies(r, some))


@unit("Substitutions::add", [SS + "::add"])
def add_sub(E):
    o = E.obj(SS, "substitutions")
    n0 = E.fld(o, "substitutions_").n
    s = E.deref(E.obj(H, "s"))
    dep = z3.Function("depends!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    js = E.skolem("other")
    E.assume(And(le(0, js), le(js, n0)))
    e1, e2 = E.local(False), E.local(False)
    which = lambda lv: lv.path[-1][1] if lv.path and lv.path[-1][0] == "ix" else n0
    E.stubs["tvm::hint::internal::dependsOn"] = lambda E, this, a, fn: dep(I(which(a[0])), I(which(a[1])))
    G = "tvm::graph::internal::DependencyGraph"
    E.stubs[G + "::addNode"] = lambda E, this, a, fn: n0

    def edge(E, this, a, fn):
        f, t = [lib.load(E, x) for x in a]
        E.prove("an edge is a dependency", dep(I(f), I(t)))
        for g, p, q in ((e1, js, n0), (e2, n0, js)):
            E.write(g, Or(E.read(g), And(eq(f, p), eq(t, q))))
        return True
    E.stubs[G + "::addEdge"] = edge
    E.loopinv[SS + "::add"] = loops.Ind(
        ("edges so far", lambda E, k, L: And(Implies(And(lt(js, k), dep(I(js), I(n0))), E.read(e1)), Implies(And(lt(js, k), dep(I(n0), I(js))), E.read(e2)))))
    E.call(SS + "::add", o, [s])
    E.prove("the substitution is added at the end", eq(E.fld(o, "substitutions_").n, add(n0, 1)))
    E.prove("those which depend on the new one have an edge to it", Implies(dep(I(js), I(n0)), E.read(e1)))
    E.prove("the new one has an edge to those it depends on", Implies(dep(I(n0), I(js)), E.read(e2)))
