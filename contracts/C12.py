"""C12: task dynamics. Each updateValue is executed on an arbitrary state (any size, gains, function value and velocity) and
compared with the formula of the documentation; constructors and gain setters establish and keep that state."""
from engine.run import unit
import lib
import loops
from sym import AbortX, ThrowX
from values import *
TD = "src/task_dynamics/"
TUS = [TD + x + ".cpp" for x in ("Constant", "None", "OneStepToZero", "Proportional", "ProportionalDerivative", "Reference",
                                 "VelocityDamper", "TaskDynamics", "TaskDynamicsImpl")] + ["tus/dynamics.cpp"]
DRIVER = "C12.cpp"
SOURCES = None
DRIVER_S = 10
BOUNDED = "random functions of 1 to 8 components, every dynamics and composition, gains of every kind changed between updates, " \
          "each update compared with the formula; refusals of inconsistent gains, sizes and parameters"
ASSUMPTIONS = ["the coefficients are reals (rounding is not modelled)",
               "the bounds of a clamped dynamics contain 0 (the constructors check it; the accessors leave it to the caller)",
               "with automatic damping, no component is exactly at its safety distance when it enters the interaction distance",
               "a matrix gain given without damping is symmetric and non-negative (otherwise an assertion fails)",
               "the sizes of gains given to the constructors of a proportional-derivative dynamics are checked by assertions"]
TRUSTED = ["Eigen: coefficient-wise expressions, matrix products, select, and that RealSchur decomposes the gain it is given",
           "mpark::variant, std::function, std::optional",
           "declarations of inputs and dependencies take effect (C09)"]
NS = "tvm::task_dynamics::"
IMPL = NS + "abstract::TaskDynamicsImpl"
FUN = "tvm::function::abstract::Function"
FOP = "tvm::internal::FirstOrderProvider"
MAT, VEC = "Eigen::Matrix<double, -1, -1, 0, -1, -1>", "Eigen::Matrix<double, -1, 1, 0, -1, 1>"


def one(E, name, *pats, n=None):
    r = [f for f in E.prog.byname.get(name, []) if all(p in f["key"] for p in pats) and (n is None or len(f["params"]) == n)]
    if len(r) != 1:
        raise Unsupported("%d functions %s %s" % (len(r), name, pats))
    return r[0]


def vec(E, name, n):
    f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.RealSort())
    return E.local(Mat(n, 1, lambda i, j: f(I(i))))


def mat(E, name, n, m):
    f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.IntSort(), z3.RealSort())
    return E.local(Mat(n, m, lambda i, j: f(I(i), I(j))))


def at(E, lv, i, j=0):
    return E.asmat(E.read(lv)).get(i, j)


class Fun:
    """contract of a function: a size, and values read through the outputs of its base classes"""
    def __init__(s, E, name="f"):
        s.p = E.obj(FUN, name)
        s.n = E.input("size", E.fresh("int", "size"))
        E.assume(le(0, s.n))
        s.val, s.vel = vec(E, name + "_value", s.n), vec(E, name + "_velocity", s.n)


def funs(E, *fs):
    def by(what):
        def h(E, this, a, fn):
            v = E.mkptr(this).a if not isinstance(this, Ptr) else this.a
            for f in fs:
                if key_eq(v, f.p.a) is True:
                    return getattr(f, what)
            raise Unsupported("a function the dynamics was not given")
        return h
    E.stubs[FOP + "::value"] = by("val")
    E.stubs[FUN + "::velocity"] = by("vel")
    E.stubs[FOP + "::size"] = by("n")


def variant(i, v):
    return Struct("mpark::variant", {"idx": i, "alt%d" % i: v})


class Gain:
    """a gain of any of the three kinds, of the size of the function"""
    KIND = ["scalar", "diagonal", "matrix"]

    def __init__(s, E, name, kind, n, m=None):
        m = n if m is None else m
        s.kind, s.n = kind, n
        s.lv = E.local(E.input(name, E.fresh("real", name))) if kind == 0 else vec(E, name, n) if kind == 1 else mat(E, name, n, m)
        s.v0 = E.read(s.lv)

    def var(s, E):
        return variant(s.kind, s.v0)

    def times(s, E, x, i):
        """component i of the product by the vector function x"""
        if s.kind == 0:
            return mul(s.v0, x(i))
        m = E.asmat(s.v0)
        if s.kind == 1:
            return mul(m.get(i, 0), x(i))
        return E.msum(m.c, lambda l: mul(m.get(i, l), x(l)))


class Dyn(Ptr):
    pass


def impl(E, cls, f, order, t=None):
    """an arbitrary dynamics of function f"""
    o = Dyn(E.obj(cls, "impl").a, cls)
    E.setfld(o, "f_", f.p)
    E.setfld(o, "order_", order)
    if t is None:
        t = E.fresh("int", "type")
        E.assume(And(le(0, t), le(t, 3)))
    E.setfld(o, "type_", t)
    o.rhs = vec(E, "rhs", f.n)
    E.write(E.fld_lv(o, "rhs_"), E.read(o.rhs))
    E.write(E.fld_lv(o, "value_"), E.read(vec(E, "previous", f.n)))
    return o


def comp(E, f):
    i = E.skolem("component")
    E.assume(And(le(0, i), lt(i, f.n)))
    return i


def err(E, f, o):
    return lambda i: sub(at(E, f.val, i), at(E, o.rhs, i))


def check(E, o, f, exp, what):
    v = E.asmat(E.fld(o, "value_"))
    E.prove("the value has the size of the function", And(eq(v.r, f.n), eq(v.c, 1)))
    i = comp(E, f)
    E.prove("the value is %s" % what, eq(v.get(i, 0), exp(i)))


def update(E, o, cls=None):
    E.call((cls or E.dyncls(o.a)) + "::updateValue", o)


@unit("Constant", [NS + "Constant::Impl::updateValue"])
def constant(E):
    f = Fun(E)
    funs(E, f)
    o = impl(E, NS + "Constant::Impl", f, 0)
    update(E, o)
    check(E, o, f, lambda i: at(E, o.rhs, i), "the right-hand side")


@unit("None", [NS + "None::Impl::updateValue"])
def none(E):
    f = Fun(E)
    funs(E, f)
    o = impl(E, NS + "None::Impl", f, 0)
    lf = E.obj("tvm::function::abstract::LinearFunction", "f2")
    b = vec(E, "b", f.n)
    E.stubs["tvm::function::abstract::LinearFunction::b"] = lambda E, this, a, fn: b
    E.setfld(o, "lf_", lf)
    update(E, o)
    check(E, o, f, lambda i: sub(at(E, o.rhs, i), at(E, b, i)), "the right-hand side minus the constant of the linear function")


@unit("OneStepToZero", [NS + "OneStepToZero::Impl::updateValue"])
def onestep(E):
    f = Fun(E)
    funs(E, f)
    order = 2 if E.choose("order two") else 1
    o = impl(E, NS + "OneStepToZero::Impl", f, order)
    dt = E.input("dt", E.fresh("real", "dt"))
    E.assume(lt(0, dt))
    E.setfld(o, "dt_", dt)
    update(E, o)
    e = err(E, f, o)
    # e + dt v = 0 (v is the value), or e + dt de + dt^2/2 v = 0
    v = E.asmat(E.fld(o, "value_"))
    E.prove("the value has the size of the function", eq(v.r, f.n))
    i = comp(E, f)
    x = v.get(i, 0)
    if order == 1:
        E.prove("the value brings the error to zero after one step", eq(add(e(i), mul(dt, x)), 0))
    else:
        E.prove("the value brings the error to zero after one step",
                eq(add(add(e(i), mul(dt, at(E, f.vel, i))), mul(mul(dt, dt), rdiv(x, 2))), 0))


@unit("Proportional", [NS + "Proportional::Impl::updateValue"])
def prop(E):
    f = Fun(E)
    funs(E, f)
    o = impl(E, NS + "Proportional::Impl", f, 1)
    k = 0 if E.choose("scalar") else 1 if E.choose("diagonal") else 2
    g = Gain(E, "kp", k, f.n)
    E.setfld(o, "kp_", g.var(E))
    update(E, o)
    check(E, o, f, lambda i: neg(g.times(E, err(E, f, o), i)), "minus the gain times the error")


@unit("ProportionalDerivative", [NS + "ProportionalDerivative::Impl::updateValue"])
def propder(E):
    f = Fun(E)
    funs(E, f)
    o = impl(E, NS + "ProportionalDerivative::Impl", f, 2)
    k = [0 if E.choose("scalar") else 1 if E.choose("diagonal") else 2 for _ in range(2)]
    kp, kv = Gain(E, "kp", k[0], f.n), Gain(E, "kv", k[1], f.n)
    E.setfld(o, "kp_", kp.var(E))
    E.setfld(o, "kv_", kv.var(E))
    update(E, o)
    check(E, o, f, lambda i: sub(neg(kv.times(E, lambda l: at(E, f.vel, l), i)), kp.times(E, err(E, f, o), i)),
          "minus the damping gain times the velocity minus the gain times the error")


@unit("Reference", [NS + "Reference::Impl::updateValue"])
def reference(E):
    f, r = Fun(E), Fun(E, "reference")
    E.assume(And(ne(f.p.a, r.p.a), eq(f.n, r.n)))
    funs(E, f, r)
    o = impl(E, NS + "Reference::Impl", f, 2 if E.choose("order two") else 1)
    E.setfld(o, "ref_", r.p)
    update(E, o)
    check(E, o, f, lambda i: at(E, r.val, i), "the value of the reference")


def mi(E, cls, n):
    return one(E, cls + "::" + n)["key"]


VD = NS + "VelocityDamper"


def bits(E, name, n):
    f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.BoolSort())
    return Vec(n, lambda k: f(I(k)), "bool")


def damper(E, f, order, t, auto):
    """an arbitrary damper, in the state its constructors establish"""
    o = impl(E, VD + "::Impl", f, order, t)
    o.p = {k: vec(E, k, f.n) for k in ("ds", "di", "xsiOff", "axsi")}
    for k in ("ds", "di", "axsi"):
        E.setfld(o, k + "_", E.read(o.p[k]))
    if auto:
        E.setfld(o, "xsiOff_", E.read(o.p["xsiOff"]))
    o.dt = E.input("dt", E.fresh("real", "dt"))
    E.assume(lt(0, o.dt))
    E.setfld(o, "dt_", o.dt)
    o.big = E.input("big", E.fresh("real", "big"))
    E.setfld(o, "big_", o.big)
    E.setfld(o, "autoXsi_", auto)
    E.forall(lambda i: Implies(And(le(0, i), lt(i, f.n)), lt(at(E, o.p["ds"], i), at(E, o.p["di"], i))))
    ds, di = E.asmat(E.read(o.p["ds"])), E.asmat(E.read(o.p["di"]))
    E.setfld(o, "a_", Mat(f.n, 1, lambda i, j: neg(rdiv(Fraction(1), sub(di.get(i, 0), ds.get(i, 0))))))
    E.setfld(o, "d_", E.read(vec(E, "previous_distance", f.n)))
    o.act = bits(E, "active", f.n)
    E.setfld(o, "active_", o.act)
    return o


for AUTO in (False, True):
    @unit("VelocityDamper" + (", automatic damping" if AUTO else ""),
          [VD + "::Impl::updateValue", VD + "::Impl::updateValue_"])
    def velocity_damper(E, auto=AUTO):
        f = Fun(E)
        funs(E, f)
        order = 2 if E.choose("order two") else 1
        t = 2 if E.choose("upper bound") else [0, 1, 3][0 if E.choose("equal") else 1 if E.choose("lower") else 2]
        o = damper(E, f, order, t, auto)
        sg = -1 if t == 2 else 1
        i = comp(E, f)
        p = {k: at(E, o.p[k], i) for k in ("ds", "di", "xsiOff", "axsi")}
        dist = mul(sg, err(E, f, o)(i))
        v = mul(sg, at(E, f.vel, i))
        near = le(dist, p["di"])
        axsi = p["axsi"]
        act0 = o.act.get(i)
        if auto:
            # damping parameter computed when the interaction distance is entered, kept until it is left
            def fresh_axsi(j):
                q = {k: at(E, o.p[k], j) for k in ("ds", "di", "xsiOff")}
                return mul(neg(rdiv(Fraction(1), sub(q["di"], q["ds"]))),
                           add(rdiv(mul(mul(sg, at(E, f.vel, j)), sub(q["ds"], q["di"])),
                                    sub(mul(sg, err(E, f, o)(j)), q["ds"])), q["xsiOff"]))
            N = z3.Function("new_axsi!%d" % E.fresh_id(), z3.IntSort(), z3.RealSort())
            E.forall(lambda j: eq(N(I(j)), fresh_axsi(j)))
            new = N(I(i))
            E.forall(lambda j: Implies(And(le(0, j), lt(j, f.n)), ne(mul(sg, err(E, f, o)(j)), at(E, o.p["ds"], j))))
            axsi = ite(And(near, Not(act0)), new, axsi)

            def st(E):
                return E.fld(o, "active_"), E.asmat(E.fld(o, "axsi_"))
            E.loopinv[VD + "::Impl::updateValue_"] = loops.Ind(
                ("sizes", lambda E, k, L: And(eq(st(E)[0].n, f.n), eq(st(E)[1].r, f.n), eq(st(E)[1].c, 1))),
                ("activity", lambda E, k, L: eq(B(st(E)[0].get(i)), ite(lt(i, k), B(near), B(act0)))),
                ("damping", lambda E, k, L: eq(st(E)[1].get(i, 0), ite(lt(i, k), axsi, p["axsi"]))))
        update(E, o)
        x = E.asmat(E.fld(o, "value_"))
        E.prove("the value has the size of the function", eq(x.r, f.n))
        lim = mul(axsi, sub(dist, p["ds"]))
        if order == 2:
            lim = rdiv(sub(lim, v), o.dt)
        E.prove("the value is the damping term below the interaction distance, and the big number beyond",
                eq(x.get(i, 0), mul(sg, ite(near, lim, neg(o.big)))))
        if auto:
            E.prove("a component is active below the interaction distance", eq(B(E.fld(o, "active_").get(i)), B(near)))
            E.prove("the damping parameter changes only when the interaction distance is entered",
                    eq(E.asmat(E.fld(o, "axsi_")).get(i, 0), axsi))


# ---------------------------------------------------------------- construction

def wiring(E, log):
    """the declarations of inputs, updates and dependencies are recorded (their effect is C09's)"""
    for n, fs in E.prog.byname.items():
        m = n.split("::")[-1]
        if n.startswith("tvm::graph::") and m in ("addInput", "addInputDependency", "registerUpdates", "addOutputDependency"):
            for f in fs:
                E.stubs[f["key"]] = lambda E, this, a, fn, m=m: log.append((m, fn["key"], [lib.load(E, x) for x in a]))


def world(E):
    f = Fun(E)
    funs(E, f)
    f.eucl = E.input("euclidean", E.fresh("bool", "euclidean"))
    E.stubs["tvm::Space::isEuclidean"] = lambda E, this, a, fn: f.eucl
    log = []
    wiring(E, log)
    f.m = E.input("rhs size", E.fresh("int", "rhs_size"))
    E.assume(le(0, f.m))
    f.rhs = vec(E, "rhs", f.m)
    f.t = E.fresh("int", "type")
    E.assume(And(le(0, f.t), le(f.t, 3)))
    return f, log


def make(E, td, f):
    """what a task does with its dynamics"""
    return E.call_x(NS + "abstract::TaskDynamics::impl", td, [f.p, f.t, f.rhs])


def built(E, f, td, r, order, what=True):
    """refused, or an implementation with the given order and data"""
    k, v = r
    ok = And(f.eucl, eq(f.n, f.m), what)
    E.prove("no failed assertion", k != "abort")
    E.prove("the declared order", eq(E.call(NS + "abstract::TaskDynamics::order", td, []), order))
    if k == "throw":
        E.prove("refused only for wrong sizes or spaces", Not(ok))
        return None
    E.prove("accepted only for consistent sizes and a Euclidean space", ok)
    o = Dyn(v.a, E.dyncls(v.a))
    E.prove("the function, type, order and right-hand side are kept",
            And(eq(E.fld(o, "f_").a, f.p.a), eq(E.fld(o, "type_"), f.t), eq(E.fld(o, "order_"), order),
                eq(E.asmat(E.fld(o, "rhs_")).r, f.n)))
    i = comp(E, f)
    E.prove("the right-hand side is kept", eq(E.asmat(E.fld(o, "rhs_")).get(i, 0), at(E, f.rhs, i)))
    o.rhs = f.rhs
    return o


def same(E, var, g):
    """the gain holds g"""
    E.prove("the gain is of the kind given", eq(var.get("idx"), g.kind))
    x = var.get("alt%d" % g.kind)
    if g.kind == 0:
        E.prove("the gain is kept", eq(x, g.v0))
        return
    a, b = E.asmat(x), E.asmat(g.v0)
    E.prove("the gain has the size given", And(eq(a.r, b.r), eq(a.c, b.c)))
    i, j = E.skolem("i"), E.skolem("j") if g.kind == 2 else 0
    E.assume(And(le(0, i), lt(i, b.r), le(0, j), lt(j, b.c)))
    E.prove("the gain is kept", eq(a.get(i, j), b.get(i, j)))


def any_gain(E, name):
    k = 0 if E.choose("scalar") else 1 if E.choose("diagonal") else 2
    n, m = (E.input(name + x, E.fresh("int", name + x)) for x in ("_rows", "_cols"))
    E.assume(And(le(0, n), le(0, m)))
    return Gain(E, name, k, n, m)


def fits(g, f):
    return True if g.kind == 0 else eq(g.n, f.n) if g.kind == 1 else And(eq(g.v0.r, f.n), eq(g.v0.c, f.n))


def ctor(E, cls, kinds):
    def ok(f):
        return len(f["params"]) == len(kinds) and all(
            (p == "double") if k == 0 else (VEC if k == 1 else MAT) in p for k, p in zip(kinds, f["pt"]))
    r = [f for f in E.prog.byname[cls] if ok(f)]
    if len(r) != 1:
        raise Unsupported("%d functions %s %s" % (len(r), cls, kinds))
    return r[0]["key"]


@unit("Proportional: construction", [NS + "Proportional::Proportional", NS + "Proportional::Impl::Impl", NS + "Proportional::impl_",
                                     IMPL + "::TaskDynamicsImpl"])
def prop_ctor(E):
    f, log = world(E)
    g = any_gain(E, "kp")
    P = NS + "Proportional"
    td = E.construct(P, [g.lv], fn=ctor(E, P + "::Proportional", [g.kind]))
    o = built(E, f, td, make(E, td, f), 1, fits(g, f))
    if o is None:
        return
    same(E, E.fld(o, "kp_"), g)
    update(E, o)
    check(E, o, f, lambda i: neg(g.times(E, err(E, f, o), i)), "minus the gain times the error")


@unit("Proportional: gain given later", [NS + "Proportional::Impl::gain"])
def prop_gain(E):
    f = Fun(E)
    funs(E, f)
    o = impl(E, NS + "Proportional::Impl", f, 1)
    k = 0 if E.choose("was scalar") else 1 if E.choose("was diagonal") else 2
    g0 = Gain(E, "previous_kp", k, f.n)
    E.setfld(o, "kp_", g0.var(E))
    g = any_gain(E, "kp")
    k, _ = E.call_x(ctor(E, NS + "Proportional::Impl::gain", [g.kind]), o, [g.lv])
    E.prove("no failed assertion", k != "abort")
    E.prove("refused exactly when the size is wrong", eq(k == "ret", B(fits(g, f))))
    same(E, E.fld(o, "kp_"), g if k == "ret" else g0)


PD = NS + "ProportionalDerivative"


@unit("ProportionalDerivative: construction", [PD + "::ProportionalDerivative", PD + "::Impl::Impl", PD + "::impl_",
                                               IMPL + "::TaskDynamicsImpl"])
def pd_ctor(E):
    f, log = world(E)
    kp, kv = any_gain(E, "kp"), any_gain(E, "kv")
    td = E.construct(PD, [kp.lv, kv.lv], fn=ctor(E, PD + "::ProportionalDerivative", [kp.kind, kv.kind]))
    k, v = make(E, td, f)
    E.prove("the declared order", eq(E.call(NS + "abstract::TaskDynamics::order", td, []), 2))
    ok = And(f.eucl, eq(f.n, f.m))
    E.prove("accepted exactly for consistent sizes and a Euclidean space", eq(k == "ret", And(ok, fits(kp, f), fits(kv, f))))
    E.prove("wrong sizes of the right-hand side or spaces are refused by an exception", Implies(Not(ok), k == "throw"))
    if k != "ret":
        return
    o = built(E, f, td, (k, v), 2)
    same(E, E.fld(o, "kp_"), kp)
    same(E, E.fld(o, "kv_"), kv)


def pd_state(E):
    f = Fun(E)
    funs(E, f)
    o = impl(E, PD + "::Impl", f, 2)
    o.g = []
    for n in ("kp_", "kv_"):
        k = 0 if E.choose("was scalar") else 1 if E.choose("was diagonal") else 2
        o.g.append(Gain(E, "previous_" + n, k, f.n))
        E.setfld(o, n, o.g[-1].var(E))
    return f, o


@unit("ProportionalDerivative: gains given later", [PD + "::Impl::gains"])
def pd_gains(E):
    f, o = pd_state(E)
    kp, kv = any_gain(E, "kp"), any_gain(E, "kv")
    k, _ = E.call_x(ctor(E, PD + "::Impl::gains", [kp.kind, kv.kind]), o, [kp.lv, kv.lv])
    E.prove("no failed assertion", k != "abort")
    E.prove("refused exactly when a size is wrong", eq(k == "ret", And(fits(kp, f), fits(kv, f))))
    same(E, E.fld(o, "kp_"), kp if k == "ret" else o.g[0])
    same(E, E.fld(o, "kv_"), kv if k == "ret" else o.g[1])


def critical(E, kv, g):
    """kv is twice the square root of the gain"""
    E.prove("the damping is of the kind of the gain", eq(kv.get("idx"), g.kind))
    x = kv.get("alt%d" % g.kind)
    if g.kind == 0:
        E.prove("the damping is critical: kv^2 = 4 kp, kv >= 0", And(eq(mul(x, x), mul(4, g.v0)), le(0, x)))
        return
    x = E.asmat(x)
    E.prove("the damping has the size of the gain", eq(x.r, g.v0.r))
    i = E.skolem("i")
    E.assume(And(le(0, i), lt(i, g.v0.r)))
    if g.kind == 2:
        j = E.skolem("j")
        E.assume(And(le(0, j), lt(j, g.v0.c)))
        U, T = E.memo["schur"]
        n = g.v0.r
        E.prove("the damping is 2 U sqrt(T) U^T for the decomposition U T U^T of the gain",
                eq(x.get(i, j), mul(2, E.msum(n, lambda l: mul(mul(U.get(i, l), lib.usqrt(E, T.get(l, l))), U.get(j, l))))))
    if g.kind == 1:
        E.prove("the damping is critical: kv^2 = 4 kp, kv >= 0",
                And(eq(mul(x.get(i, 0), x.get(i, 0)), mul(4, g.v0.get(i, 0))), le(0, x.get(i, 0))))


def nonneg(E, g):
    if g.kind == 0:
        E.assume(le(0, g.v0))
    else:
        E.forall(lambda i: Implies(And(le(0, i), lt(i, g.v0.r)), le(0, g.v0.get(i, 0))))


@unit("ProportionalDerivative: default damping", [PD + "::Impl::gains", PD + "::ProportionalDerivative"])
def pd_default(E):
    later = E.choose("given later")
    n = E.input("kp_rows", E.fresh("int", "kp_rows"))
    E.assume(le(0, n))
    g = Gain(E, "kp", 0 if E.choose("scalar") else 1, n)
    nonneg(E, g)
    if not later:
        td = E.construct(PD, [g.lv], fn=ctor(E, PD + "::ProportionalDerivative", [g.kind]))
        same(E, E.fld(td, "kp_"), g)
        critical(E, E.fld(td, "kv_"), g)
        return
    f, o = pd_state(E)
    k, _ = E.call_x(ctor(E, PD + "::Impl::gains", [g.kind]), o, [g.lv])
    E.prove("refused exactly when the size is wrong", eq(k == "ret", B(fits(g, f))))
    same(E, E.fld(o, "kp_"), g if k == "ret" else o.g[0])
    if k == "ret":
        critical(E, E.fld(o, "kv_"), g)
    else:
        same(E, E.fld(o, "kv_"), o.g[1])


def decompose(E, g):
    """the decomposition of the gain that Eigen computes: the code can use no other matrix"""
    import eigen
    old = eigen.construct

    def h(E, cls, args):
        v = old(E, cls, args)
        if cls.startswith("Eigen::RealSchur<"):
            m = E.asmat(lib.load(E, args[0]))
            E.prove("the gain given is the matrix decomposed", same_mat(E, m, g.v0))
            E.memo["schur"] = (v.get("matrixU"), v.get("matrixT"))
            n = g.v0.r
            E.forall(lambda i: Implies(And(le(0, i), lt(i, n)), le(0, v.get("matrixT").get(i, i))))
        return v
    return h


def same_mat(E, a, b):
    i, j = E.skolem("i"), E.skolem("j")
    return And(eq(a.r, b.r), eq(a.c, b.c), Implies(And(le(0, i), lt(i, b.r), le(0, j), lt(j, b.c)), eq(a.get(i, j), b.get(i, j))))


@unit("ProportionalDerivative: default damping of a matrix gain", [PD + "::Impl::gains", PD + "::ProportionalDerivative"])
def pd_schur(E):
    import eigen
    later = E.choose("given later")
    n = E.input("kp_rows", E.fresh("int", "kp_rows"))
    E.assume(le(0, n))
    g = Gain(E, "kp", 2, n)
    f, o = pd_state(E) if later else (None, None)
    old = eigen.construct
    eigen.construct = decompose(E, g)
    try:
        if later:
            k, td = E.call_x(ctor(E, PD + "::Impl::gains", [2]), o, [g.lv])
        else:
            k, td = "ret", None
            try:
                o = E.construct(PD, [g.lv], fn=ctor(E, PD + "::ProportionalDerivative", [2]))
            except AbortX:
                k = "abort"
    finally:
        eigen.construct = old
    if k == "abort":        # not symmetric, outside the contract
        b = [b for b, m in E.memo.get("isDiagonal", [])]
        E.prove("an assertion fails only for a gain that is not symmetric", And(True, *[Not(b[-1])]) if b else False)
        return
    if later:
        E.prove("refused exactly when the size is wrong", eq(k == "ret", B(fits(g, f))))
    same(E, E.fld(o, "kp_"), g if k == "ret" else o.g[0])
    if k == "ret":
        critical(E, E.fld(o, "kv_"), g)
    else:
        same(E, E.fld(o, "kv_"), o.g[1])


@unit("Constant and None: construction", [NS + "Constant::Impl::Impl", NS + "None::Impl::Impl", NS + "Constant::impl_", NS + "None::impl_"])
def simple_ctor(E):
    f, log = world(E)
    cst = E.choose("Constant")
    C = NS + ("Constant" if cst else "None")
    lin = True
    if not cst:
        lin = bool(E.choose("linear function"))
        E.set_dyn(f.p.a, "tvm::function::abstract::LinearFunction" if lin else FUN)
    td = E.obj(C, "dynamics")
    o = built(E, f, td, make(E, td, f), 0, lin)
    if o is None:
        return
    b = vec(E, "b", f.n)
    E.stubs["tvm::function::abstract::LinearFunction::b"] = lambda E, this, a, fn: b
    if cst:
        check(E, o, f, lambda i: at(E, o.rhs, i), "the right-hand side before any update")
    update(E, o)
    check(E, o, f, lambda i: at(E, o.rhs, i) if cst else sub(at(E, o.rhs, i), at(E, b, i)), "the formula")


@unit("OneStepToZero: construction", [NS + "OneStepToZero::OneStepToZero", NS + "OneStepToZero::checkParam", NS + "OneStepToZero::Impl::Impl"])
def onestep_ctor(E):
    f, log = world(E)
    C = NS + "OneStepToZero"
    d, dt = E.input("order", E.fresh("int", "order")), E.input("dt", E.fresh("real", "dt"))
    E.assume(And(le(0, d), le(d, 3)))
    k = "ret"
    try:
        td = E.construct(C, [d, dt], fn=[g for g in E.prog.byname[C + "::OneStepToZero"] if len(g["params"]) == 2][0]["key"])
    except ThrowX:
        k = "throw"
    ok = And(le(1, d), le(d, 2), lt(0, dt))
    E.prove("refused exactly for orders other than one and two and for non-positive steps", eq(k == "ret", ok))
    if k != "ret":
        return
    o = built(E, f, td, make(E, td, f), d)
    if o is not None:
        E.prove("the step is kept", eq(E.fld(o, "dt_"), dt))


@unit("Reference: construction", [NS + "Reference::Reference", NS + "Reference::Impl::Impl", NS + "Reference::Impl::setReference"])
def ref_ctor(E):
    f, log = world(E)
    r = Fun(E, "reference")
    E.assume(ne(f.p.a, r.p.a))
    r.eucl = f.eucl
    funs(E, f, r)
    null = E.choose("null reference")
    C = NS + ("ReferenceVelocity" if E.choose("velocity") else "ReferenceAcceleration")
    order = 1 if C.endswith("Velocity") else 2
    td = E.construct(C, [E.local(Ptr(0, FUN) if null else r.p)], fn=one(E, C + "::" + C.split("::")[-1], "shared_ptr")["key"])
    o = built(E, f, td, make(E, td, f), order, False if null else eq(r.n, f.n))
    if o is None:
        return
    E.prove("the reference is kept", eq(E.fld(o, "ref_").a, r.p.a))


# ---------------------------------------------------------------- velocity damper: parameters

def params(E, k, n):
    return E.local(E.read(vec(E, k, n)))


@unit("VelocityDamper: parameters", [VD + "::Config::Config"])
def vd_config(E):
    v = [E.input(x, E.fresh("real", x)) for x in ("di", "ds", "xsi", "xsiOff")]
    k = "ret"
    try:
        c = E.construct(VD + "::Config", v, fn=[g for g in E.prog.byname[VD + "::Config::Config"] if len(g["params"]) == 4][0]["key"])
    except ThrowX:
        k = "throw"
    E.prove("refused exactly when inconsistent", eq(k == "ret", And(lt(v[1], v[0]), le(0, v[1]), le(0, v[2]), le(0, v[3]))))
    if k == "ret":
        for x, y in zip(("di_", "ds_", "xsi_", "xsiOff_"), v):
            E.prove("parameters are kept", eq(E.fld(c, x), y))


def vd_world(E, f, sz):
    """anisotropic parameters the constructor of AnisotropicConfig accepts"""
    p = {k: vec(E, k, sz) for k in ("di", "ds", "xsi", "xsiOff")}
    return p


@unit("VelocityDamper: anisotropic parameters", [VD + "::AnisotropicConfig::AnisotropicConfig"])
def vd_aniso(E):
    n = {k: E.input("size of " + k, E.fresh("int", "n_" + k)) for k in ("di", "ds", "xsi", "xsiOff")}
    for x in n.values():
        E.assume(le(1, x))
    p = {k: vec(E, k, n[k]) for k in n}
    off = E.choose("offset given")
    opt = E.local(Struct("std::optional<Eigen::Ref>", {"has": bool(off), "val": E.read(p["xsiOff"]) if off else UNINIT}))
    fn = [g for g in E.prog.byname[VD + "::AnisotropicConfig::AnisotropicConfig"] if len(g["params"]) == 4][0]
    k = "ret"
    try:
        c = E.construct(VD + "::AnisotropicConfig", [p["di"], p["ds"], p["xsi"], opt], fn=fn["key"])
    except ThrowX:
        k = "throw"
    sizes = And(eq(n["di"], n["ds"]), eq(n["di"], n["xsi"]), eq(n["di"], n["xsiOff"]) if off else True)

    def good(i):
        return And(lt(at(E, p["ds"], i), at(E, p["di"], i)), le(0, at(E, p["ds"], i)), le(0, at(E, p["xsi"], i)),
                   le(0, at(E, p["xsiOff"], i)) if off else True)
    i, j = E.skolem("i"), E.skolem("j")
    inside = And(le(0, i), lt(i, n["di"]))
    if k == "ret":
        E.prove("accepted only with vectors of one size", sizes)
        E.prove("accepted only when every component is consistent", Implies(inside, good(i)))
        E.prove("accepted only when the damping is automatic everywhere or nowhere",
                Implies(And(inside, le(0, j), lt(j, n["di"])), eq(eq(at(E, p["xsi"], i), 0), eq(at(E, p["xsi"], j), 0))))
        for x in ("di", "ds", "xsi", "xsiOff"):
            m = E.asmat(E.fld(c, x + "_"))
            E.prove("parameters are kept, the offset is 0 by default",
                    And(eq(m.r, n["di"]), Implies(inside, eq(m.get(i, 0), at(E, p[x], i) if off or x != "xsiOff" else 0))))
    else:
        # a vector of parameters fulfilling everything is not refused
        auto = E.fresh("bool", "auto")
        h = E.forall(lambda q: Implies(And(le(0, q), lt(q, n["di"])), And(good(q), eq(B(auto), eq(at(E, p["xsi"], q), 0)))))
        E.assume(sizes)
        E.prove("consistent parameters are accepted", False)


def td_obj(E, cls):
    return Dyn(E.obj(cls, "dynamics").a, cls)


def at0(E, v):
    return E.asmat(v)


@unit("VelocityDamper: construction", [VD + "::VelocityDamper", VD + "::Impl::Impl", VD + "::impl_"])
def vd_ctor(E):
    f, log = world(E)
    sz = E.input("parameter size", E.fresh("int", "parameter_size"))
    E.assume(le(1, sz))
    p = {k: vec(E, k, sz) for k in ("di", "ds", "xsi", "xsiOff")}
    auto = bool(E.choose("automatic damping"))
    # what the constructor of AnisotropicConfig guarantees
    E.forall(lambda i: Implies(And(le(0, i), lt(i, sz)),
                               And(lt(at(E, p["ds"], i), at(E, p["di"], i)), le(0, at(E, p["ds"], i)),
                                   eq(at(E, p["xsi"], i), 0) if auto else lt(0, at(E, p["xsi"], i)), le(0, at(E, p["xsiOff"], i)))))
    c = E.obj(VD + "::AnisotropicConfig", "config")
    for k in p:
        E.setfld(c, k + "_", E.read(p[k]))
    E.index(0)
    big = E.input("big", E.fresh("real", "big"))
    two = bool(E.choose("order two"))
    fn = [g for g in E.prog.byname[VD + "::VelocityDamper"] if "AnisotropicConfig" in g["key"] and len(g["params"]) == (3 if two else 2)]
    k = "ret"
    dt = E.input("dt", E.fresh("real", "dt"))
    try:
        td = E.construct(VD, ([dt] if two else []) + [E.deref(c), big], fn=fn[0]["key"])
    except ThrowX:
        k = "throw"
    E.prove("refused exactly for non-positive step or big number", eq(k == "ret", And(lt(0, big), lt(0, dt) if two else True)))
    if k != "ret":
        return
    o = built(E, f, td, make(E, td, f), 2 if two else 1, Or(eq(sz, 1), eq(sz, f.n)))
    if o is None:
        return
    i = comp(E, f)
    j = ite(eq(sz, 1), 0, i)
    E.index(j)
    q = {x: at(E, p[x], j) for x in p}
    g = lambda x: E.asmat(E.fld(o, x))
    for x in ("ds", "di"):
        E.prove("distances are kept, a single one is that of every component", And(eq(g(x + "_").r, f.n), eq(g(x + "_").get(i, 0), q[x])))
    E.prove("slope", And(eq(g("a_").r, f.n), eq(mul(g("a_").get(i, 0), sub(q["di"], q["ds"])), -1)))
    E.prove("automatic damping as asked", eq(B(E.fld(o, "autoXsi_")), auto))
    a = E.fld(o, "active_")
    E.prove("no component is active yet", And(eq(a.n, f.n), Not(B(a.get(i)))))
    E.prove("one damping parameter per component", eq(g("axsi_").r, f.n))
    if auto:
        E.prove("offsets are kept", And(eq(g("xsiOff_").r, f.n), eq(g("xsiOff_").get(i, 0), q["xsiOff"])))
    else:
        E.prove("damping parameters are kept", eq(mul(g("axsi_").get(i, 0), sub(q["di"], q["ds"])), neg(q["xsi"])))
    E.prove("big number and step are kept", And(eq(E.fld(o, "big_"), big), eq(E.fld(o, "dt_"), dt if two else 0)))


# ---------------------------------------------------------------- composed dynamics

def composed(E, outer, inner):
    r = [n[:-len("::Impl::updateValue")] for n in E.prog.byname
         if n.startswith((NS + outer + "<" + NS + inner + ",", NS + outer + "<" + NS + inner + ">")) and n.endswith(">::Impl::updateValue")]
    r = [n for n in r if n.count("<") == (1 if "<" not in inner else 2)]
    if len(r) != 1:
        raise Unsupported("%d classes %s<%s>" % (len(r), outer, inner))
    return r[0]


def inner_update(E, f, o, inner):
    """contract of the update of the inner dynamics: any value of the right size"""
    v = vec(E, "inner_value", f.n)

    def h(E, this, a, fn):
        E.write(E.fld_lv(o, "value_"), E.read(v))
        return None
    E.stubs[NS + inner + "::Impl::updateValue"] = h
    return v


for INNER in ("Proportional", "ProportionalDerivative"):
    @unit("Clamped<%s>" % INNER, [NS + "Clamped::Impl::updateValue"])
    def clamped(E, inner=INNER):
        f = Fun(E)
        funs(E, f)
        C = composed(E, "Clamped", inner)
        o = impl(E, C + "::Impl", f, 2 if inner.endswith("Derivative") else 1)
        v = inner_update(E, f, o, inner)
        b = {k: vec(E, k, f.n) for k in ("min", "max")}
        for k in b:
            E.setfld(o, k + "_", E.read(b[k]))
        E.forall(lambda i: Implies(And(le(0, i), lt(i, f.n)), And(le(at(E, b["min"], i), 0), le(0, at(E, b["max"], i)))))
        i = comp(E, f)
        t = E.input("another factor", E.fresh("real", "factor"))
        E.assume(And(le(0, t), le(t, 1)))
        E.forall(lambda j: Implies(And(le(0, j), lt(j, f.n)), And(le(at(E, b["min"], j), mul(t, at(E, v, j))),
                                                                  le(mul(t, at(E, v, j)), at(E, b["max"], j)))))
        seen = {}

        def s(L):
            seen["s"] = L[-1]
            return L[-1]
        E.loopinv[C + "::Impl::updateValue"] = loops.Ind(
            ("a factor of [0,1]", lambda E, k, L: And(le(0, s(L)), le(s(L), 1))),
            ("the components seen are within their bounds",
             lambda E, k, L: Implies(lt(i, k), And(le(at(E, b["min"], i), mul(s(L), at(E, v, i))), le(mul(s(L), at(E, v, i)), at(E, b["max"], i))))),
            ("no smaller than necessary", lambda E, k, L: le(t, s(L))))
        update(E, o)
        x = E.asmat(E.fld(o, "value_"))
        E.prove("the value has the size of the function", eq(x.r, f.n))
        sc = seen["s"]
        E.prove("the value is that of the inner dynamics times a factor of [0,1]",
                And(eq(x.get(i, 0), mul(sc, at(E, v, i))), le(0, sc), le(sc, 1)))
        E.prove("every component is within its bounds", And(le(at(E, b["min"], i), x.get(i, 0)), le(x.get(i, 0), at(E, b["max"], i))))
        E.prove("no larger factor fits", le(t, sc))
        for k in b:
            E.prove("the bounds are not modified", eq(E.asmat(E.fld(o, k + "_")).get(i, 0), at(E, b[k], i)))

    @unit("FeedForward<%s>" % INNER, [NS + "FeedForward::Impl::updateValue"])
    def feedforward(E, inner=INNER):
        f = Fun(E)
        funs(E, f)
        C = composed(E, "FeedForward", inner)
        o = impl(E, C + "::Impl", f, 2 if inner.endswith("Derivative") else 1)
        v = inner_update(E, f, o, inner)
        ff = vec(E, "feed_forward", f.n)
        E.setfld(o, "feedForward_", Opaque("std::function", "feed forward"))
        E.stubs["std::function::operator()"] = lambda E, this, a, fn: ff
        update(E, o)
        check(E, o, f, lambda i: add(at(E, v, i), at(E, ff, i)), "that of the inner dynamics plus the feed-forward term")


@unit("Clamped: construction", [NS + "Clamped::Clamped", NS + "Clamped::Impl::Impl", NS + "Clamped::impl_"])
def clamped_ctor(E):
    f, log = world(E)
    C = composed(E, "Clamped", "Proportional")
    kp = E.local(E.input("kp", E.fresh("real", "kp")))
    vecs = bool(E.choose("vectors"))
    fs = E.prog.byname[C + "::Clamped"]
    k = "ret"
    if vecs:
        b, n = {}, {}
        for x in ("min", "max"):
            n[x] = E.input("size of " + x, E.fresh("int", "n_" + x))
            E.assume(le(0, n[x]))
            b[x] = vec(E, x, n[x])
        fn = [g for g in fs if "std::pair<Eigen::Ref" in g["pt"][0]]
        arg = E.local(Struct("std::pair", {"first": E.read(b["min"]), "second": E.read(b["max"])}))
    else:
        b = {x: E.input(x, E.fresh("real", x)) for x in ("min", "max")}
        sym = bool(E.choose("one bound"))
        fn = [g for g in fs if (g["pt"][0] == "double" if sym else "std::pair<double" in g["pt"][0])]
        arg = E.local(b["max"]) if sym else E.local(Struct("std::pair", {"first": b["min"], "second": b["max"]}))
        if sym:
            E.assume(eq(b["min"], neg(b["max"])))
    if len(fn) != 1:
        raise Unsupported("%d constructors of Clamped" % len(fn))
    try:
        td = E.construct(C, [arg, kp], fn=fn[0]["key"])
    except ThrowX:
        k = "throw"
    i = E.skolem("i")
    if vecs:
        E.assume(And(le(0, i), lt(i, n["min"])))
    val = lambda x, q: at(E, b[x], q) if vecs else b[x]
    good = lambda q: And(le(val("min", q), 0), le(0, val("max", q)))
    if k == "ret":
        if vecs:
            E.prove("bounds of different sizes are refused", eq(n["min"], n["max"]))
        E.prove("bounds that do not contain 0 are refused", good(i))
    else:
        if vecs:
            E.assume(eq(n["min"], n["max"]))
            E.forall(lambda q: Implies(And(le(0, q), lt(q, n["min"])), good(q)))
        else:
            E.assume(good(0))
        E.prove("consistent bounds are accepted", False)
        return
    if not vecs:
        E.index(0)
    o = built(E, f, td, make(E, td, f), 1, eq(n["min"], f.n) if vecs else True)
    if o is None:
        return
    j = comp(E, f)
    for x in ("min", "max"):
        m = E.asmat(E.fld(o, x + "_"))
        E.prove("the bounds are kept, a single one is that of every component", And(eq(m.r, f.n), eq(m.get(j, 0), val(x, j))))
    E.prove("the parameters of the inner dynamics are kept", And(eq(E.fld(o, "kp_").get("idx"), 0), eq(E.fld(o, "kp_").get("alt0"), E.read(kp))))


@unit("FeedForward: construction", [NS + "FeedForward::FeedForward", NS + "FeedForward::Impl::Impl", NS + "FeedForward::impl_"])
def ff_ctor(E):
    f, log = world(E)
    C = composed(E, "FeedForward", "Proportional")
    kp = E.local(E.input("kp", E.fresh("real", "kp")))
    prov = E.obj("vp_tu::Provider", "provider")
    n = E.input("size of the feed-forward term", E.fresh("int", "n_ff"))
    E.assume(le(0, n))
    ff = vec(E, "feed_forward", n)
    cur = [ff]
    E.stubs["vp_tu::Provider::ff"] = lambda E, this, a, fn: cur[0]
    fn = one(E, C + "::FeedForward", "vp_tu::Provider")
    meth = {"key": "vp_tu::Provider::ff", "name": "vp_tu::Provider::ff", "cls": "vp_tu::Provider", "params": [], "pt": []}
    td = E.construct(C, [prov, Fn([meth]), 0, kp], fn=fn["key"])
    o = built(E, f, td, make(E, td, f), 1, eq(n, f.n))
    if o is None:
        return
    E.prove("the update depends on the feed-forward term",
            any(m == "addInputDependency" and any(isinstance(x, Ptr) and key_eq(x.a, prov.a) is True for x in a) for m, _, a in log))
    ff2 = vec(E, "later_feed_forward", n)
    cur[0] = ff2
    v = inner_update(E, f, o, "Proportional")
    update(E, o)
    check(E, o, f, lambda i: add(at(E, v, i), at(E, ff2, i)), "that of the inner dynamics plus the current feed-forward term")
