"""C22: ObjWithId/IdProvider, Clock, Plane. Real bodies, extracted."""
from engine.run import unit
from values import *

TUS = ["src/Clock.cpp", "src/geometry/Plane.cpp", "src/internal/ObjWithId.cpp"]
DRIVER = "C22.cpp"
SOURCES = ["Clock.cpp", "geometry/Plane.cpp", "internal/ObjWithId.cpp", "graph/Inputs.cpp", "graph/Logger.cpp", "graph/Log.cpp",
           "graph/CallGraph.cpp", "graph/DependencyGraph.cpp"]
DRIVER_S = 4
BOUNDED = "random sequences of creations, moves, advances and plane updates"
ASSUMPTIONS = ["std::mutex/lock_guard serialise IdProvider::makeId (concurrent calls are treated as atomic)"]
IP, O, P = "tvm::internal::IdProvider", "tvm::internal::ObjWithId", "tvm::geometry::Plane"


def counter_of(E, ip):
    """the integer state of the provider, whatever its name"""
    fs = [fr["name"] for c, fr in E.prog.fields(IP) if fr["t"] in ("int", "unsigned int", "long", "unsigned long")]
    if len(fs) != 1:
        raise Unsupported("state of IdProvider")
    return E.fld_lv(ip, fs[0])


@unit("IdProvider::makeId", [IP + "::makeId"])
def make_id(E):
    # ghost: `issued` = supremum of the identifiers issued so far is counter-1; invariant: every issued id < counter
    ip = E.obj(IP, "ip")
    c0 = E.input("counter", E.read(counter_of(E, ip)))
    E.assume(le(0, c0))
    old = E.skolem("issued")                # any identifier issued before
    E.assume(And(le(0, old), lt(old, c0)))
    r = E.call(IP + "::makeId", ip)
    E.prove("the new identifier differs from every identifier issued before", ne(r, old))
    E.prove("identifiers are non-negative", le(0, r))
    c1 = E.read(counter_of(E, ip))
    E.prove("every issued identifier stays below the counter", And(lt(r, c1), lt(old, c1)))


@unit("ObjWithId::ObjWithId", [O + "::ObjWithId"])
def obj_ctor(E):
    used = []

    def mk(E, this, args, fn):
        r = E.fresh("int", "newid")
        E.assume(le(0, r))
        used.append(r)
        return r
    E.stubs[IP + "::makeId"] = mk
    a = E.construct(O, [])
    E.prove("exactly one identifier is drawn", len(used) == 1)
    E.prove("the object has the identifier drawn", eq(E.call(O + "::id", a), used[0]))


def two(E):
    a, b = E.obj(O, "a"), E.obj(O, "b")
    E.assume(ne(a.a, b.a))
    return a, b, E.input("a.id", E.call(O + "::id", a)), E.input("b.id", E.call(O + "::id", b))


@unit("ObjWithId::ObjWithId(move)", [O + "::ObjWithId"])
def obj_move(E):
    b = E.obj(O, "b")
    ib = E.call(O + "::id", b)
    E.assume(le(0, ib))
    c = [f for f in E.prog.byname[O + "::ObjWithId"] if len(f["params"]) == 1 and "&&" in f["params"][0]["t"]]
    a = E.construct(O, [E.deref(b)], fn=c[0]["key"] if c else "?")
    E.prove("the identifier is transferred", eq(E.call(O + "::id", a), ib))
    E.prove("the source no longer has it", ne(E.call(O + "::id", b), ib))
    E.prove("the source has no valid identifier", lt(E.call(O + "::id", b), 0))


@unit("ObjWithId::operator=(move)", [O + "::operator="])
def obj_massign(E):
    a, b, ia, ib = two(E)
    E.assume(le(0, ib))
    c = [f for f in E.prog.byname.get(O + "::operator=", []) if "&&" in f["params"][0]["t"]]
    if len(c) != 1:
        raise Unsupported("move assignment of ObjWithId")
    E.call(c[0], a, [E.deref(b)])
    E.prove("the identifier is transferred", eq(E.call(O + "::id", a), ib))
    E.prove("the source no longer has it", lt(E.call(O + "::id", b), 0))


C = "tvm::Clock"


@unit("Clock::Clock", [C + "::Clock"])
def clock_ctor(E):
    dt = E.input("dt", E.fresh("real", "dt"))
    E.assume(lt(0, dt))
    c = [f for f in E.prog.byname.get(C + "::Clock", []) if len(f["params"]) == 1 and f["params"][0]["t"] == "double"]
    if len(c) != 1:
        raise Unsupported("constructor of Clock")
    k = E.construct(C, [dt], fn=c[0]["key"])
    E.prove("dt as given", eq(E.call(C + "::dt", k), dt))
    E.prove("no tick yet", eq(E.call(C + "::ticks", k), 0))


@unit("Clock::advance", [C + "::advance"])
def clock_adv(E):
    k = E.obj(C, "c")
    t, dt = E.input("ticks", E.call(C + "::ticks", k)), E.call(C + "::dt", k)
    E.call(C + "::advance", k)
    E.prove("one more tick", eq(E.call(C + "::ticks", k), add(t, 1)))
    E.prove("dt unchanged", eq(E.call(C + "::dt", k), dt))


def vec3(E, n):
    return Mat(3, 1, (lambda f: (lambda i, j: f(I(i))))(z3.Function(n, z3.IntSort(), z3.RealSort())))


def same(E, m, v):
    m = E.asmat(m)
    return And(eq(m.r, 3), eq(m.c, 1), *[eq(m.get(i, 0), v.get(i, 0)) for i in range(3)])


OBS = ("normal", "offset", "normalDot", "speed", "normalDotDot")


def plane(E):
    p = E.obj(P, "p")
    return p


def obs(E, p):
    r = {}
    for n in OBS:
        v = E.call(P + "::" + n, p)
        v = E.read(v) if isinstance(v, LV) else v
        r[n] = v if isscalar(v) else E.asmat(v)
    r["acceleration"] = E.asmat(E.read(E.call(P + "::acceleration", p, nargs=0)))
    r["point"] = E.asmat(E.read(E.call(P + "::point", p)))
    return r


def unchanged(E, label, o, n, names):
    for x in names:
        if isscalar(o[x]):
            E.prove("%s keeps %s" % (label, x), eq(o[x], n[x]))
        else:
            E.prove("%s keeps %s" % (label, x), same(E, n[x], o[x]))


def pos_fn(E, t, name="position"):
    c = [f for f in E.prog.byname.get(P + "::" + name, []) if len(f["params"]) == 2 and
         (f["params"][1]["t"] == "double") == (t == "double")]
    if len(c) != 1:
        raise Unsupported(name)
    return c[0]


def dot(a, b):
    r = 0
    for i in range(3):
        r = add(r, mul(a.get(i, 0), b.get(i, 0)))
    return r


@unit("Plane::position(normal,point)", [P + "::position"])
def pos_point(E):
    p = plane(E)
    o = obs(E, p)
    n, x = vec3(E, "n"), vec3(E, "x")
    E.call(pos_fn(E, "vec"), p, [n, x])
    q = obs(E, p)
    E.prove("normal as given", same(E, q["normal"], n))
    E.prove("point as given", same(E, q["point"], x))
    E.prove("the point is on the plane", eq(add(dot(q["normal"], x), q["offset"]), 0))
    unchanged(E, "position", o, q, ("normalDot", "speed", "normalDotDot", "acceleration"))


@unit("Plane::position(normal,offset)", [P + "::position"])
def pos_off(E):
    p = plane(E)
    o = obs(E, p)
    n, d = vec3(E, "n"), E.fresh("real", "d")
    E.call(pos_fn(E, "double"), p, [n, d])
    q = obs(E, p)
    E.prove("normal as given", same(E, q["normal"], n))
    E.prove("offset as given", eq(q["offset"], d))
    unchanged(E, "position", o, q, ("normalDot", "speed", "normalDotDot", "acceleration"))


@unit("Plane::Plane(normal,offset)", [P + "::Plane"])
def ctor_off(E):
    n, d = vec3(E, "n"), E.fresh("real", "d")
    p = Ptr(E.construct(P, [n, d], fn=pos_fn(E, "double", "Plane")["key"]).root[1], P)
    q = obs(E, p)
    E.prove("normal as given", same(E, q["normal"], n))
    E.prove("offset as given", eq(q["offset"], d))
    z = Mat(3, 1, lambda i, j: Fraction(0))
    for x in ("normalDot", "speed", "normalDotDot", "acceleration"):
        E.prove("%s is zero" % x, same(E, q[x], z))


@unit("Plane::Plane(normal,point)", [P + "::Plane"])
def ctor_point(E):
    n, x = vec3(E, "n"), vec3(E, "x")
    p = Ptr(E.construct(P, [n, x], fn=pos_fn(E, "vec", "Plane")["key"]).root[1], P)
    q = obs(E, p)
    E.prove("normal as given", same(E, q["normal"], n))
    E.prove("point as given", same(E, q["point"], x))
    E.prove("the point is on the plane", eq(add(dot(q["normal"], x), q["offset"]), 0))
    z = Mat(3, 1, lambda i, j: Fraction(0))
    for x in ("normalDot", "speed", "normalDotDot", "acceleration"):
        E.prove("%s is zero" % x, same(E, q[x], z))


@unit("Plane::velocity", [P + "::velocity"])
def velocity(E):
    p = plane(E)
    o = obs(E, p)
    a, b = vec3(E, "a"), vec3(E, "b")
    E.call(P + "::velocity", p, [a, b])
    q = obs(E, p)
    E.prove("normalDot as given", same(E, q["normalDot"], a))
    E.prove("speed as given", same(E, q["speed"], b))
    unchanged(E, "velocity", o, q, ("normal", "offset", "point", "normalDotDot", "acceleration"))


@unit("Plane::acceleration", [P + "::acceleration"])
def acceleration(E):
    p = plane(E)
    o = obs(E, p)
    a, b = vec3(E, "a"), vec3(E, "b")
    E.call(P + "::acceleration", p, [a, b], nargs=2)
    q = obs(E, p)
    E.prove("normalDotDot as given", same(E, q["normalDotDot"], a))
    E.prove("acceleration as given", same(E, q["acceleration"], b))
    unchanged(E, "acceleration", o, q, ("normal", "offset", "point", "normalDot", "speed"))
