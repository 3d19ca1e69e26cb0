"""C16: solving requirements (both forms of the four of them, and the set) and the abilities of the schemes' levels.
The observers value() and isDefault() and CallbackManager::run are the vocabulary of the contracts."""
from engine.run import unit
from values import *
from sym import ThrowX, AbortX
import interp
import loops

TUS = ["tus/requirements.cpp"]
DRIVER = "C16.cpp"
DRIVER_S = 8
BOUNDED = "random values, conversions and modifications of the four requirements and of requirement sets, with subscribers; " \
          "random scheme abilities (up to 5 explicit levels, all constraint types, all violation measures); the abilities " \
          "declared by the two schemes"
ASSUMPTIONS = ["a scheme has at least one level (or no limit)", "CallbackManager::run notifies every subscriber (established by C17)",
               "weights are validated when a requirement is constructed; value() and assignment do not validate"]
R = "tvm::requirements::"
S = R + "abstract::SingleSolvingRequirement"
VEC = "Eigen::Matrix<double, -1, 1, 0, -1, 1>"
KINDS = {"PriorityLevelBase": "int", "WeightBase": "double", "AnisotropicWeightBase": VEC,
         "ViolationEvaluationBase": R + "ViolationEvaluationType"}
RUN = "tvm::internal::CallbackManager::run"


def lw(L):
    return "<true>" if L else "<false>"


def cls(k, L):
    return R + k + lw(L)


def base(k, L):
    return "%s<%s, %s>" % (S, KINDS[k], "true" if L else "false")


def value(E, k, L, p):
    f = [f for f in E.prog.byname[base(k, L) + "::value"] if not f["params"]][0]
    return interp.load(E, E.call(f["key"], p))


def isdef(E, k, L, p):
    return B(interp.load(E, E.call(base(k, L) + "::isDefault", p)))


def pick(E, name, pred):
    f = [f for f in E.prog.byname.get(name, []) if pred([p["t"] for p in f["params"]])]
    if len(f) != 1:
        raise Unsupported("%s: %d candidates" % (name, len(f)))
    return f[0]


def same(E, a, b):
    """equality of two values of the requirement's type"""
    if hasattr(a, "r") or hasattr(b, "r"):
        a, b = E.asmat(a), E.asmat(b)
        i = E.skolem("i")
        if not isz(a.r) and not isz(b.r) and a.r == 0 and b.r == 0:
            return True
        return And(eq(a.r, b.r), Implies(And(le(0, i), lt(i, a.r)), eq(a.get(i, 0), b.get(i, 0))))
    return eq(a, b)


def sample(E, k, name):
    return E.input(name, E.sym(KINDS[k], name)) if KINDS[k] != VEC else E.sym(VEC, name)


def default(k, E):
    return {"PriorityLevelBase": 0, "WeightBase": 1}.get(k)


def negative(E, k, v):
    """an element of the value is negative"""
    if k == "ViolationEvaluationBase":
        return False
    if KINDS[k] != VEC:
        return lt(v, 0)
    return None


def make(E, k, L, v):
    """an arbitrary requirement holding the value v"""
    p = E.obj(cls(k, L), "req")
    return p


for _k in KINDS:
    for _L in (True, False):
        def gen(k, L):
            C = cls(k, L)
            name = k + (" (light)" if L else " (with callbacks)")

            @unit(name + ": default constructor", [C + "::" + k])
            def dflt(E):
                p = E.construct(C, [], pick(E, C + "::" + k, lambda ps: not ps)["key"])
                E.prove("a default requirement says so", isdef(E, k, L, p))
                v = value(E, k, L, p)
                if KINDS[k] == VEC:
                    E.prove("the default is the documented one", eq(E.asmat(v).r, 0))
                elif k == "ViolationEvaluationBase":
                    E.prove("the default is the documented one", eq(v, E.prog.enums[KINDS[k]]["L2"]))
                else:
                    E.prove("the default is the documented one", eq(v, default(k, E)))

            @unit(name + ": constructor from a value", [C + "::" + k])
            def given(E):
                v = sample(E, k, "value")
                f = pick(E, C + "::" + k, lambda ps: len(ps) == 1 and "tvm::requirements::" + k not in ps[0])
                if KINDS[k] == VEC:
                    m = E.asmat(v)
                    q = E.skolem("q")
                    arg = v
                else:
                    arg = v
                try:
                    p = E.construct(C, [arg], f["key"])
                except ThrowX:
                    if KINDS[k] == VEC:
                        E.prove("refused only when an element is negative", Or(*[
                            And(le(0, j), lt(j, m.r), lt(m.get(j, 0), 0)) for j in list(E.idx)]))
                    else:
                        E.prove("refused only when negative", negative(E, k, v))
                    return
                if KINDS[k] == VEC:
                    E.prove("negative elements are refused", Implies(And(le(0, q), lt(q, m.r)), le(0, m.get(q, 0))))
                else:
                    E.prove("a negative value is refused", Not(negative(E, k, v)))
                E.prove("the value is the one given", same(E, value(E, k, L, p), v))
                E.prove("it is not a default", Not(isdef(E, k, L, p)))

            @unit(name + ": conversion from the other form", [C + "::" + k])
            def conv(E):
                o = E.obj(cls(k, not L), "other")
                f = pick(E, C + "::" + k, lambda ps: len(ps) == 1 and k + lw(not L) in ps[0])
                v0, d0 = value(E, k, not L, o), isdef(E, k, not L, o)
                p = E.construct(C, [E.deref(o)], f["key"])
                E.prove("the value is kept", same(E, value(E, k, L, p), v0))
                E.prove("the default flag is kept", eq(isdef(E, k, L, p), d0))
                E.prove("the source is unchanged", And(same(E, value(E, k, not L, o), v0), eq(isdef(E, k, not L, o), d0)))

            def change(E, op, fn, arg, v, d):
                p = E.obj(C, "req")
                E.assume(ne(p.a, getattr(arg, "a", 0)) if isinstance(arg, Ptr) else True)
                runs = []

                def run(E, this, args, fn):
                    runs.append(And(same(E, value(E, k, L, p), v), eq(isdef(E, k, L, p), d)))
                    return None
                E.stubs[RUN] = run
                E.call(fn["key"], p, [arg])
                E.prove("the value becomes the one given", same(E, value(E, k, L, p), v))
                E.prove("the default flag follows", eq(isdef(E, k, L, p), d))
                if not L:
                    E.prove("the change notifies the subscribers", len(runs) > 0)
                    for r in runs:
                        E.prove("the subscribers see the new value", r)

            @unit(name + ": value()", [base(k, L) + "::value"])
            def setv(E):
                v = sample(E, k, "value")
                change(E, "value", pick(E, base(k, L) + "::value", lambda ps: len(ps) == 1),
                       v, v, False)

            @unit(name + ": assignment of a value", [C + "::operator="])
            def asg(E):
                v = sample(E, k, "value")
                change(E, "=", pick(E, C + "::operator=", lambda ps: len(ps) == 1 and "requirements::" + k not in ps[0]),
                       v, v, False)

            @unit(name + ": assignment from the other form", [C + "::operator="])
            def asgo(E):
                o = E.obj(cls(k, not L), "other")
                v0, d0 = value(E, k, not L, o), isdef(E, k, not L, o)
                change(E, "=", pick(E, C + "::operator=", lambda ps: len(ps) == 1 and k + lw(not L) in ps[0]), E.deref(o), v0, d0)
        gen(_k, _L)

ACC = {"PriorityLevelBase": "priorityLevel", "WeightBase": "weight", "AnisotropicWeightBase": "anisotropicWeight",
       "ViolationEvaluationBase": "violationEvaluation"}


def accessor(E, k, L, p, bare=None):
    f = [f for f in E.prog.byname[R + "SolvingRequirementsBase" + lw(L) + "::" + ACC[k]]]
    return E.call(f[0]["key"], p)


def param_kind(t):
    for k in KINDS:
        if "requirements::" + k + "<" in t:
            return k, "<true>" in t
    raise Unsupported(t)


def set_unit(L, many):
    B_ = R + "SolvingRequirementsBase" + lw(L)

    @unit("SolvingRequirements (%s): construction from %d requirements" % ("light" if L else "with callbacks", many),
          [B_ + "::SolvingRequirementsBase", B_ + "::build"])
    def f(E):
        E.stubs[RUN] = lambda E, this, args, fn: None
        c = [f for f in E.prog.byname[B_ + "::SolvingRequirementsBase"] if len(f["params"]) == many
             and not any("SolvingRequirementsBase" in p["t"] for p in f["params"])]
        if not c:
            raise Unsupported("no instance")
        f = c[0]
        for g in c[1:]:
            if E.choose(g["key"][:20]):
                f = g
                break
        ks = [param_kind(p["t"]) for p in f["params"]]
        args = [E.obj(cls(k, l), "arg%d" % i) for i, (k, l) in enumerate(ks)]
        vals = [(k, value(E, k, l, a), isdef(E, k, l, a)) for (k, l), a in zip(ks, args)]
        p = E.construct(B_, [E.deref(a) for a in args], f["key"])
        for k in KINDS:
            q = accessor(E, k, L, p)
            g = [x for x in vals if x[0] == k]
            if g:
                E.prove(k + " is the one given", And(same(E, value(E, k, L, q), g[0][1]), eq(isdef(E, k, L, q), g[0][2])))
            else:
                E.prove(k + " is at its default", isdef(E, k, L, q))


for _n in (0, 1, 2, 3, 4):
    set_unit(True, _n)
for _n in (0, 4):
    set_unit(False, _n)


@unit("SolvingRequirementsWithCallbacks(SolvingRequirements)", [R + "SolvingRequirementsWithCallbacks::SolvingRequirementsWithCallbacks"])
def with_cb(E):
    E.stubs[RUN] = lambda E, this, args, fn: None
    C = R + "SolvingRequirementsWithCallbacks"
    o = E.obj(R + "SolvingRequirements", "set")
    old = {k: (value(E, k, True, accessor(E, k, True, o)), isdef(E, k, True, accessor(E, k, True, o))) for k in KINDS}
    p = E.construct(C, [E.deref(o)], pick(E, C + "::SolvingRequirementsWithCallbacks", lambda ps: len(ps) == 1)["key"])
    for k in KINDS:
        q = accessor(E, k, False, p)
        E.prove(k + " is kept", And(same(E, value(E, k, False, q), old[k][0]), eq(isdef(E, k, False, q), old[k][1])))


# ---------------------------------------------------------------- abilities
LA, SA = "tvm::scheme::internal::LevelAbilities", "tvm::scheme::internal::SchemeAbilities"
VALUE_T = {True: R + "SolvingRequirements", False: R + "SolvingRequirementsWithCallbacks"}


def level_fields(E, l):
    b = [fr["name"] for c, fr in E.prog.fields(LA) if fr["t"] == "bool"]
    v = [fr["name"] for c, fr in E.prog.fields(LA) if fr["t"].startswith("std::vector")]
    if len(b) != 1 or len(v) != 1:
        raise Unsupported("representation of LevelAbilities")
    return b[0], v[0]


def level_unit(light):
    @unit("LevelAbilities::check (%s)" % ("light" if light else "with callbacks"), [LA + "::check"])
    def f(E):
        l = E.obj(LA, "level")
        fb, fv = level_fields(E, l)
        ineq, types = B(E.fld(l, fb)), E.fld(l, fv)
        E.input("handles inequalities", ineq)
        t = E.input("constraint type", E.sym("tvm::constraint::Type", "type"))
        E.stubs["tvm::constraint::abstract::Constraint::type"] = lambda E, this, args, fn: t
        req = E.obj(VALUE_T[light], "req")
        vet = E.input("violation", value(E, "ViolationEvaluationBase", light, accessor(E, "ViolationEvaluationBase", light, req)))
        c = E.obj("tvm::constraint::abstract::Constraint", "c")
        fn = pick(E, LA + "::check", lambda ps: (VALUE_T[light] + ">") in ps[1])
        k, r = E.call_x(fn["key"], l, [c, req, E.sym("bool", "warn")])
        equal = eq(t, E.prog.enums["tvm::constraint::Type"]["EQUAL"])
        q = E.skolem("q")
        known = Or(*[And(le(0, j), lt(j, types.n), eq(types.get(j), vet)) for j in list(E.idx)])
        if k == "ret":
            E.prove("accepted only constraints of a type the level allows", Or(equal, ineq))
            E.prove("accepted only violation measures the level allows", known)
        else:
            E.prove("refused only what the level does not allow", Not(And(
                Or(equal, ineq), le(0, q), lt(q, types.n), eq(types.get(q), vet))))
            E.prove("refusals are exceptions", k == "throw")


def scheme_fields(E):
    fs = {}
    for c, fr in E.prog.fields(SA):
        fs.setdefault("map" if fr["t"].startswith("std::map") else fr["t"], []).append(fr["name"])
    if any(len(v) != 1 for v in fs.values()) or set(fs) != {"map", "int", "bool"}:
        raise Unsupported("representation of SchemeAbilities")
    return fs["int"][0], fs["bool"][0], fs["map"][0]


def scheme_unit(light):
    @unit("SchemeAbilities::check (%s)" % ("light" if light else "with callbacks"), [SA + "::check"])
    def f(E):
        s = E.obj(SA, "scheme")
        fi, fb, fm = scheme_fields(E)
        n, scal, ab = E.fld(s, fi), B(E.fld(s, fb)), E.fld(s, fm)
        E.input("number of levels", n)
        E.input("scalarization", scal)
        req = E.obj(VALUE_T[light], "req")
        p = E.input("priority", value(E, "PriorityLevelBase", light, accessor(E, "PriorityLevelBase", light, req)))
        E.assume(le(0, p))
        # established by the constructor: levels without an entry have the general one
        E.assume(Or(And(eq(n, -1), ab.has(-1)), And(lt(0, n), Or(ab.has(-1), And(
            Implies(lt(p, n), ab.has(p)), ab.has(simp(sub(n, 1))))))))
        c = E.obj("tvm::constraint::abstract::Constraint", "c")
        seen = []

        def chk(E, this, args, fn):
            ok = E.choose("level accepts")
            seen.append((this, interp.load(E, args[0]), interp.load(E, args[1]), ok))
            if not ok:
                raise ThrowX("std::runtime_error")
        E.stubs[LA + "::check"] = chk
        fn = pick(E, SA + "::check", lambda ps: (VALUE_T[light] + ">") in ps[1])
        k, r = E.call_x(fn["key"], s, [c, req, E.sym("bool", "warn")])
        beyond = And(lt(0, n), le(n, p))
        if k == "throw" and not seen:
            E.prove("refused without asking a level only beyond the levels, without scalarization", And(beyond, Not(scal)))
            return
        E.prove("priorities beyond the levels are refused without scalarization", Or(Not(beyond), scal))
        E.prove("exactly one level is asked", len(seen) == 1)
        this, cc, rr, ok = seen[0]
        E.prove("about this constraint and these requirements", And(eq(cc.a, c.a), eq(rr.a, req.a)))
        E.prove("the answer is the level's", (k == "ret") == ok)
        lvl = ite(ab.has(p), p, ite(ab.has(-1), -1, simp(sub(n, 1))))
        want = ab.get(lvl)
        got = interp.load(E, this) if not isinstance(this, Struct) else this
        fbn, fvn = level_fields(E, None)
        E.prove("it is the level of this priority, or the general one, or the last one when emulated", And(
            eq(B(got.get(fbn)), B(want.get(fbn))), eq(got.get(fvn).n, want.get(fvn).n)))
    return f


for _l in (True, False):
    level_unit(_l)
    scheme_unit(_l)


@unit("SchemeAbilities::SchemeAbilities", [SA + "::SchemeAbilities"])
def scheme_ctor(E):
    f = pick(E, SA + "::SchemeAbilities", lambda ps: len(ps) == 3)
    n = E.input("number of levels", E.sym("int", "n"))
    ab = E.sym(f["params"][1]["t"].replace("const ", "").replace("&", "").strip(), "ab")
    scal = E.sym("bool", "scal")
    q = E.skolem("level")
    E.loopinv[SA + "::SchemeAbilities"] = loops.Ind(("the levels so far have abilities", lambda E, k, L, j: Implies(lt(j, k), ab.has(j)), "all"))
    try:
        p = E.construct(SA, [n, ab, scal], f["key"])
    except ThrowX:
        missing = Or(*[And(le(0, j), lt(j, n), Not(ab.has(j))) for j in list(E.idx)])
        E.prove("refused only for a wrong number of levels or a level without abilities", Or(
            And(lt(n, 0), ne(n, -1)), And(Not(ab.has(-1)), Or(lt(n, 0), missing))))
        return
    E.prove("wrong numbers of levels are refused", Or(le(0, n), eq(n, -1)))
    E.prove("every level has abilities", Or(ab.has(-1), And(le(0, n), Implies(And(le(0, q), lt(q, n)), ab.has(q)))))
    fi, fb, fm = scheme_fields(E)
    m = E.fld(p, fm)
    E.prove("the scheme has what was given", And(eq(E.fld(p, fi), n), eq(B(E.fld(p, fb)), scal), eq(m.has(q), ab.has(q))))
