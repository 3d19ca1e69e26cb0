"""C13: linearized task constraints."""
from engine.run import unit
import lib
import loops
from sym import AbortX, ThrowX
from values import *
TUS = ["src/constraint/LinearizedTaskConstraint.cpp", "tus/tasks.cpp"]
DRIVER = "C13.cpp"
SOURCES = None
DRIVER_S = 10
BOUNDED = "random tasks (general and linear functions of 1 to 3 variables, sub-variables, derivatives and manifold variables; every " \
          "type, way of writing the task and order of dynamics) put through the update graph several times with changing data, " \
          "against the function's own Jacobians and a separate evaluation of the dynamics; refusals"
ASSUMPTIONS = ["the coefficients are reals (rounding is not modelled)",
               "the image space of the function is Euclidean (others are refused) and its sizes agree (C03)"]
TRUSTED = ["Eigen: assignment and difference of vectors", "declarations of dependencies between updates and outputs take effect (C09)",
           "the dynamics computes its formula (C12)"]
LTC = "tvm::constraint::internal::LinearizedTaskConstraint"
CON = "tvm::constraint::abstract::Constraint"
LC = "tvm::constraint::abstract::LinearConstraint"
FOP = "tvm::internal::FirstOrderProvider"
FUN = "tvm::function::abstract::Function"
TD = "tvm::task_dynamics::abstract::TaskDynamics"
TDI = "tvm::task_dynamics::abstract::TaskDynamicsImpl"
TASK = "tvm::Task"
V = "tvm::Variable"
VV = "tvm::VariableVector"
TYPES = ["EQUAL", "GREATER_THAN", "LOWER_THAN", "DOUBLE_SIDED"]


def types(E):
    return E.prog.enums["tvm::constraint::Type"]


def typ(E):
    return types(E)[TYPES[0 if E.choose("equal") else 1 if E.choose("greater") else 2 if E.choose("lower") else 3]]


def orders(E):
    return E.prog.enums["tvm::task_dynamics::Order"]


def order(E):
    return 0 if E.choose("order zero") else 1 if E.choose("order one") else 2


def vec(E, name, n):
    f = z3.Function("%s!%d" % (name, E.fresh_id()), z3.IntSort(), z3.RealSort())
    return E.local(Mat(n, 1, lambda i, j: f(I(i))))


def nat(E, name):
    n = E.input(name, E.fresh("int", name))
    E.assume(le(0, n))
    return n


def rd(E, v):
    return E.read(v) if isinstance(v, LV) else v


# ------------------------------------------------------------------ the matrices
@unit("LinearizedTaskConstraint::jacobian", [LTC + "::jacobian"])
def jacobian(E):
    o = E.obj(LTC, "o")
    f_, a = E.obj(FUN, "f"), E.obj(TDI, "td")
    E.setfld(o, "f_", f_)
    E.setfld(o, "td_", a)
    k = order(E)
    E.stubs[TDI + "::order"] = lambda E, this, x, fn: orders(E)[["Zero", "One", "Two"][k]]
    x = E.obj(V, "x")
    chain = [x] + [E.obj(V, "primitive %d" % (i + 1)) for i in range(3)]
    for i in range(3):
        E.stubs["%s::primitive<%d>() const" % (V, i + 1)] = lambda E, this, a, fn, i=i: E.local(step(E, this, i + 1))

    def step(E, this, n):
        p = this if isinstance(this, Ptr) else E.mkptr(this)
        for i, q in enumerate(chain):
            if key_eq(q.a, p.a) is True and i + n < len(chain):
                return chain[i + n]
        raise Unsupported("primitive of another variable")
    asked = []

    def jac(E, this, a, fn):
        p = rd(E, a[0]) if not isinstance(a[0], LV) else E.mkptr(a[0])
        asked.append((E.mkptr(this).a if isinstance(this, LV) else this.a, p))
        return res
    res = object()
    E.stubs[FOP + "::jacobian"] = jac
    r = E.call(LTC + "::jacobian", o, [E.deref(x)])
    E.prove("the Jacobian of the function is asked once", len(asked) == 1)
    for t, p in asked:
        E.prove("the matrix of a variable is the function's Jacobian with respect to the variable it derives from",
                And(eq(t, f_.a), eq(p.a, chain[k].a)))


# ------------------------------------------------------------------ the constraint
@unit("LinearizedTaskConstraint::LinearizedTaskConstraint", [LTC + "::LinearizedTaskConstraint"])
def ctor(E):
    T = types(E)
    t, k = typ(E), order(E)
    two = t == T["DOUBLE_SIDED"]
    k2 = order(E) if two else 0
    num = ["Zero", "One", "Two"]
    m = nat(E, "rows")
    f_, a, b = E.obj(FUN, "f"), E.obj(TDI, "td"), E.obj(TDI, "td2")
    E.assume(ne(a.a, b.a))
    vv = E.obj(VV, "variables")
    vs = E.fld(vv, "variables_")
    n = E.input("variables", vs.n)
    E.assume(le(0, n))
    lin = z3.Function("linearIn!%d" % E.fresh_id(), z3.IntSort(), z3.BoolSort())
    dot = z3.Function("dot!%d" % E.fresh_id(), z3.IntSort(), z3.IntSort())
    E.forall(lambda q: Implies(And(le(0, q), lt(q, n)), ne(vs.get(q).a, 0)))
    task = E.obj(TASK, "task")
    E.stubs[TASK + "::type"] = lambda E, this, x, fn: t
    E.stubs[TASK + "::function"] = lambda E, this, x, fn: f_
    E.stubs[TASK + "::taskDynamics"] = lambda E, this, x, fn: a
    E.stubs[TASK + "::secondBoundTaskDynamics"] = lambda E, this, x, fn: b if two else Ptr(0, b.cls)

    def addr(v):
        return E.mkptr(v).a if isinstance(v, LV) else v.a
    E.stubs[TDI + "::order"] = lambda E, this, x, fn: orders(E)[num[k if key_eq(addr(this), a.a) is True else k2]]
    E.stubs[CON + "::type"] = lambda E, this, x, fn: t
    E.stubs[FOP + "::variables"] = lambda E, this, x, fn: E.deref(vv)
    E.stubs[FOP + "::size"] = E.stubs[FOP + "::rSize"] = lambda E, this, x, fn: m
    E.stubs[FOP + "::imageSpace"] = lambda E, this, x, fn: E.deref(E.obj("tvm::Space", "space"))
    E.stubs["tvm::Space::isEuclidean"] = lambda E, this, x, fn: True
    E.stubs[FOP + "::linearIn"] = lambda E, this, x, fn: lin(I(addr(x[0])))

    def der(E, this, x, fn):
        v = rd(E, x[0]).a
        for _ in range(simp(rd(E, x[1])) if len(x) > 1 else 1):
            v = dot(I(v))
        E.fact(v != 0)
        return Ptr(v, V)
    E.stubs["tvm::dot"] = der
    base = []
    E.stubs[LC + "::LinearConstraint"] = lambda E, this, x, fn: base.append([rd(E, v) for v in x])
    count = E.local(0)

    def addv(E, this, x, fn):
        c = E.read(count)
        v = I(vs.get(c).a)
        for _ in range(k):
            v = dot(v)
        E.prove("the variables are those of the function, in order, differentiated as many times as the order of the dynamics",
                eq(rd(E, x[0]).a, v))
        E.prove("the constraint is linear in its variables", eq(rd(E, x[1]), True))
        if k == 0:
            E.prove("without differentiation, the function is linear in the variables", lin(I(vs.get(c).a)))
        E.write(count, add(c, 1))
    E.stubs[FOP + "::addVariable"] = addv
    for g in E.prog.byname.get(FOP + "::addVariable", []):
        E.stubs[g["key"]] = addv
    E.loopinv[LTC + "::LinearizedTaskConstraint"] = loops.Ind(
        ("variables added so far", lambda E, q, L: eq(E.read(count), q)))
    log = []
    for name, fs in E.prog.byname.items():
        w = name.split("::")[-1]
        if name.startswith("tvm::graph::") and w in ("addInputDependency", "registerUpdates", "addOutputDependency", "addDirectDependency"):
            for g in fs:
                E.stubs[g["key"]] = lambda E, this, x, fn, w=w: log.append((w, [rd(E, v) for v in x], fn["key"]))
    try:
        p = E.construct(LTC, [E.deref(task)], heap=True)
    except ThrowX:
        E.prove("a task is refused only when its two dynamics have different orders or when the function is not linear "
                "and not differentiated", Or(two and k != k2, And(k == 0, lt(E.read(count), n), Not(lin(I(vs.get(E.read(count)).a))))))
        return
    E.prove("two dynamics of different orders are refused", not (two and k != k2))
    E.prove("all the variables are added", eq(E.read(count), n))
    R = E.prog.enums["tvm::constraint::RHS"]
    E.prove("the constraint has the type and the size of the task, its bounds as given",
            And(len(base) == 1, eq(base[0][0], t), eq(base[0][1], R["AS_GIVEN"]), eq(base[0][2], m)))
    E.prove("it reads the function and the dynamics of the task",
            And(eq(E.fld(p, "f_").a, f_.a), eq(E.fld(p, "td_").a, a.a), not two or eq(E.fld(p, "td2_").a, b.a)))
    wired(E, log, p, t, k, m, f_, a, b)


def wired(E, log, p, t, k, m, f_, a, b):
    """each bound of the type has an update that reads what it needs and computes the bound"""
    out, fo, tdo = outputs(E, CON), outputs(E, FUN), outputs(E, TDI)
    base, lcu = outputs(E, FOP), E.prog.enums[LC + "::Update_"]
    reg, feeds, inputs, direct = {}, {}, [], []
    for w, x, _ in log:
        if w == "registerUpdates":
            for q in range(0, len(x) - 1, 2):
                reg[simp(x[q])] = x[q + 1]
        elif w == "addOutputDependency":
            feeds.setdefault(simp(x[0]), []).append(simp(x[1]))
        elif w == "addInputDependency":
            inputs += [(simp(x[0]), x[1].a, simp(o)) for o in x[2:]]
        elif w == "addDirectDependency":
            direct.append((simp(x[0]), x[1].a, simp(x[2])))

    def reads(u, src, o):
        return any(x[0] == u and key_eq(x[1], src) is True and x[2] == o for x in inputs)
    E.prove("the matrices are those of the function, as last updated",
            any(x[0] == base["Jacobian"] and key_eq(x[1], f_.a) is True and x[2] == base["Jacobian"] for x in direct))
    E.prove("the value is computed from the matrices of the function", reads(lcu["Value"], f_.a, base["Jacobian"]))
    va, vb, dr = vec(E, "value of the dynamics", m), vec(E, "value of the second dynamics", m), vec(E, "drift", m)
    E.stubs[TDI + "::value"] = lambda E, this, x, fn: va if key_eq((E.mkptr(this) if isinstance(this, LV) else this).a, a.a) is True else vb
    E.stubs[FUN + "::normalAcceleration"] = lambda E, this, x, fn: dr
    T = types(E)
    sides = {T["EQUAL"]: "E", T["GREATER_THAN"]: "L", T["LOWER_THAN"]: "U", T["DOUBLE_SIDED"]: "LU"}[t]
    E.setfld(p, "vectors_", E.sym("tvm::constraint::internal::RHSVectors", "vectors"))
    vs = E.fld_lv(p, "vectors_")
    for c in "ELU":
        us = [u for u in feeds.get(out[c], []) if u in reg]
        if c not in sides:
            E.prove("the bounds the type does not have are not computed", len(feeds.get(out[c], [])) == 0)
            continue
        E.prove("one update computes the bound " + c, len(us) == 1)
        if len(us) != 1:
            return
        src, v = (b, vb) if c == "U" and len(sides) == 2 else (a, va)
        E.prove("it reads the value of the dynamics of the bound " + c, reads(us[0], src.a, tdo["Value"]))
        E.prove("it reads the drift of the function, for a dynamics of order two", k < 2 or reads(us[0], f_.a, fo["NormalAcceleration"]))
        before = {q: E.asmat(E.fld(vs, q + "_")) for q in "lue"}
        g = reg[us[0]]
        E.call(g.fns[0]["key"], p)
        i = E.skolem("row")
        E.assume(And(le(0, i), lt(i, m)))
        want = E.asmat(E.read(v)).get(i, 0)
        if k == 2:
            want = sub(want, E.asmat(E.read(dr)).get(i, 0))
        for q in "lue":
            x = E.asmat(E.fld(vs, q + "_"))
            if q == c.lower():
                E.prove("the bound is the value of the dynamics, minus the drift for order two", And(eq(x.r, m), eq(x.get(i, 0), want)))
            else:
                y = before[q]
                E.prove("the other vectors are left alone", And(eq(x.r, y.r), eq(x.get(i, 0), y.get(i, 0))))


def outputs(E, cls):
    """the outputs of a class and of its bases"""
    r = {}
    for c in E.prog.bases(cls):
        r.update(E.prog.enums.get(c + "::Output_", {}))
    return r


# ------------------------------------------------------------------ writing a task


class World:
    """a function, a dynamics, two right-hand sides of any kind"""

    def __init__(s, E, fcls=FUN):
        s.E = E
        s.n = nat(E, "rows of the function")
        s.f = E.obj(fcls, "f")
        s.td = E.obj(TD, "td")
        s.eucl = E.input("euclidean", E.fresh("bool", "euclidean"))
        s.log = []
        E.stubs[FOP + "::size"] = E.stubs[FOP + "::rSize"] = E.stubs[FOP + "::tSize"] = lambda E, this, x, fn: s.n
        E.stubs[FOP + "::imageSpace"] = lambda E, this, x, fn: E.deref(E.obj("tvm::Space", "space"))
        E.stubs["tvm::Space::isEuclidean"] = lambda E, this, x, fn: s.eucl
        E.stubs[TD + "::impl"] = s.impl

    def impl(s, E, this, x, fn):
        E.prove("the dynamics is that given", eq((E.mkptr(this) if isinstance(this, LV) else this).a, s.td.a))
        r = E.obj(TDI, "implementation")
        s.log.append((rd(E, x[0]).a, rd(E, x[1]), E.asmat(rd(E, x[2])), r))
        return r

    def check(s, E, t, T, want, i):
        E.prove("the task has the function and type written", And(eq(E.fld(t, "f_").a, s.f.a), eq(E.fld(t, "type_"), T)))
        tt = types(E)
        sides = [tt["GREATER_THAN"], tt["LOWER_THAN"]] if len(want) == 2 else [T]
        E.prove("one implementation of the dynamics per bound", len(s.log) == len(want))
        for q, (l, ty, w) in enumerate(zip(s.log, sides, want)):
            E.prove("the dynamics is for the function, on the side of the bound", And(eq(l[0], s.f.a), eq(l[1], ty)))
            E.prove("its right-hand side is that written", And(eq(l[2].r, s.n), eq(l[2].get(i, 0), w)))
            E.prove("the task keeps the implementation for that side", eq(E.fld(t, ["td_", "td2_"][q]).a, l[3].a))
        if len(want) == 1:
            E.prove("there is no second dynamics", eq(E.fld(t, "td2_").a, 0))


@unit("Task::Task(f, type, dynamics, bounds)", [TASK + "::Task"])
def taskctor(E):
    w = World(E)
    tt = types(E)
    t = typ(E)
    how = 0 if E.choose("no bound") else 1 if E.choose("number") else 2 if E.choose("vector") else 3 if E.choose("numbers") else 4
    i = E.skolem("row")
    E.assume(And(le(0, i), lt(i, w.n)))
    real = lambda n: E.input(n, E.fresh("real", n))
    a, b = real("first bound"), real("second bound")
    va, vb = vec(E, "first vector", w.n), vec(E, "second vector", w.n)
    args, want = [w.f, t, E.deref(w.td)], [Fraction(0)]
    if how == 1:
        args, want = args + [a], [a]
    elif how == 2:
        args, want = args + [va], [E.asmat(E.read(va)).get(i, 0)]
    elif how == 3:
        args, want = args + [a, b], [a, b]
    elif how == 4:
        args, want = args + [va, vb], [E.asmat(E.read(x)).get(i, 0) for x in (va, vb)]
    key = [f["key"] for f in E.prog.byname[TASK + "::Task"] if "ProtoTask" not in f["key"] and len(f["params"]) == len(args)
           and ("Matrix<double" in f["key"]) == (how in (2, 4)) and "shared_ptr" in f["key"]]
    if len(key) != 1:
        raise Unsupported("%d constructors" % len(key))
    fits = And(w.eucl, (t == tt["DOUBLE_SIDED"]) == (how >= 3))
    try:
        p = E.construct(TASK, args, fn=key[0], heap=True)
    except ThrowX:
        E.prove("a task is refused only when its bounds do not fit its type or its function is not Euclidean", Not(fits))
        return
    E.prove("bounds that do not fit the type, and non-Euclidean functions, are refused", fits)
    w.check(E, p, t, want, i)


def written(lin):
    FT = "tvm::function::abstract::LinearFunction" if lin else FUN

    def f(E):
        w = World(E, FT)
        E.assume(w.eucl)
        tt = types(E)
        R = "tvm::utils::internal::RHS"
        a, b = E.local(E.sym(R, "a"), R), E.local(E.sym(R, "b"), R)
        kinds = E.prog.enums["tvm::utils::internal::RHSType"]
        i = E.skolem("row")
        E.assume(And(le(0, i), lt(i, w.n)))
        i0 = i

        def den(r):
            k = E.fld(r, "type_")
            v = E.asmat(E.fld(r, "v_"))
            return ite(eq(k, kinds["Zero"]), Fraction(0), ite(eq(k, kinds["Double"]), E.fld(r, "d_"), v.get(i0, 0)))

        def ok(r):
            return Or(ne(E.fld(r, "type_"), kinds["Vector"]), eq(E.asmat(E.fld(r, "v_")).r, w.n))
        for r in (a, b):
            E.assume(And(le(0, E.fld(r, "type_")), le(E.fld(r, "type_"), 2)))
        forms = [("f == a", "operator==", 0, "EQUAL"), ("a == f", "operator==", 1, "EQUAL"), ("f >= a", "operator>=", 0, "GREATER_THAN"),
                 ("a >= f", "operator>=", 1, "LOWER_THAN"), ("f <= a", "operator<=", 0, "LOWER_THAN"),
                 ("a <= f", "operator<=", 1, "GREATER_THAN"), ("a <= f <= b", "operator<=", 1, "GREATER_THAN"),
                 ("a >= f >= b", "operator>=", 1, "LOWER_THAN")]
        q = 0
        while q < len(forms) - 1 and not E.choose(forms[q][0]):
            q += 1
        form, op, rev, T = forms[q]
        two = q >= 6

        def pick(name, *pats):
            c = [g for g in E.prog.byname[name] if len(g["params"]) == len(pats) and all(x.startswith(y) for x, y in zip(split(g["key"]), pats))]
            if len(c) != 1:
                raise Unsupported("%s: %d candidates" % (name, len(c)))
            return c[0]["key"]
        ps = ["const " + R, "std::shared_ptr<%s>" % FT]
        ps = ps if rev else ps[::-1]
        good = And(ok(a), Or(not two, ok(b)))
        try:
            P = proto(E, E.call(pick(op, *ps), args=[a, w.f] if rev else [w.f, a]))
            if two:
                key = [g["key"] for g in E.prog.byname[op] if split(g["key"])[0].startswith("const tvm::utils::ProtoTaskCommon")
                       and ("::LinearFunction" in split(g["key"])[0]) == lin]
                if len(key) != 1:
                    raise Unsupported("%d operators" % len(key))
                P = proto(E, E.call(key[0], args=[P, b]))
                T = "DOUBLE_SIDED"
            want = [den(a)] if not two else [den(a), den(b)] if rev and op == "operator<=" else [den(b), den(a)]
            if lin:
                P = convert(E, P)
            key = [g["key"] for g in E.prog.byname[TASK + "::Task"] if "Type::%s," % T in g["key"]]
            if len(key) != 1:
                raise Unsupported("%d constructors" % len(key))
            t = E.construct(TASK, [P, E.deref(w.td)], fn=key[0], heap=True)
        except ThrowX:
            E.prove("an expression is refused only when a vector has not the size of the function", Not(good))
            return
        E.prove("vectors of another size are refused", good)
        w.check(E, t, tt[T], want, i)
    unit("writing a task on a %sfunction" % ("linear " if lin else ""), [TASK + "::Task"])(f)


def split(key):
    """parameter types of a key"""
    s = key[key.index("(") + 1:key.rindex(")")]
    out, d, cur = [], 0, ""
    for c in s:
        d += c == "<"
        d -= c == ">"
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out


def proto(E, r):
    return r if isinstance(r, LV) else E.local(r)


def convert(E, P):
    """the implicit conversion of an expression on a linear function"""
    v = E.read(P)
    cls = v.cls.replace("::LinearFunction>", "::Function>")
    key = [g["key"] for g in E.prog.byname[cls + "::ProtoTaskCommon"] if "::LinearFunction>" in split(g["key"])[0]]
    if len(key) != 1:
        raise Unsupported("%d conversions" % len(key))
    return proto(E, E.construct(cls, [P], fn=key[0]))


written(False)
written(True)
