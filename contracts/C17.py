"""C17: PairElementToken, PairElementTokenHandle, CallbackManager. Real bodies, extracted.

Data-structure invariant: for every token t, partner(t) = null or partner(partner(t)) = t (and partner(t) != t).
Every operation is verified to preserve it for an arbitrary further token q (frame) on top of its own post-condition."""
from engine.run import unit
from values import *

TUS = ["tus/tokens.cpp"]
DRIVER = "C17.cpp"
SOURCES = []
DRIVER_FLAGS = ["-fsanitize=address"]
DRIVER_S = 8
BOUNDED = "random histories of up to 40 operations on up to 8 tokens (reference: a partial matching), and of registrations/" \
          "destructions/notifications on a CallbackManager (reference: list of live callbacks)"
ASSUMPTIONS = ["a token handle is consumed before its token is paired otherwise, moved or destroyed",
               "callbacks do not modify the manager that runs them",
               "a token is not paired with itself"]
T = "tvm::internal::PairElementToken"
H = "tvm::internal::PairElementTokenHandle"


def pfield(E):
    fs = [fr["name"] for c, fr in E.prog.fields(T) if fr["t"].endswith("*")]
    if len(fs) != 1:
        raise Unsupported("representation of PairElementToken")
    return fs[0]


def partner(E, p):
    return E.fld(p, pfield(E)).a


def at(E, a):
    return Ptr(a, T)


def tinv(E, p):
    """the invariant for one token (address p.a)"""
    f = pfield(E)
    o = partner(E, p)
    if not isz(o) and o == 0:
        return True
    oo = E.fld(at(E, o), f).a
    return Or(eq(o, 0), And(eq(oo, p.a), ne(o, p.a)))


def inv_pre(E):
    def f(E, p):
        # assumed for every token of the pre-state, when it is first looked at
        E.fact(tinv(E, p))
    E.class_inv[T] = f


def toks(E, *names):
    inv_pre(E)
    r = []
    for n in names:
        p = E.obj(T, n)
        E.input(n, p.a)
        r.append(p)
    for i in range(len(r)):
        for j in range(i):
            E.assume(ne(r[i].a, r[j].a))
    for p in r:
        E.input("partner(%d)" % len(E.inputs), partner(E, p))
    return r


def post_inv(E, ps, dead=()):
    q = Ptr(E.fresh("int", "q"), T)
    E.assume(lt(0, q.a))
    for d in dead:
        E.assume(ne(q.a, d.a))
    E.prove("pairing stays mutual for every token", tinv(E, q))
    for d in dead:
        E.prove("no token stays paired with a destroyed one", ne(partner(E, q), d.a))
    for p in ps:
        E.prove("pairing is mutual", tinv(E, p))
    return q


def fn(E, name, param, kind=None):
    c = [f for f in E.prog.byname.get(T + "::" + name, []) if len(f["params"]) == 1 and f["params"][0]["t"] == param]
    if len(c) != 1:
        raise Unsupported("%s(%s)" % (name, param))
    return c[0]


def frame(E, involved, old):
    """a token not involved keeps its partner"""
    q = E.frame_q
    E.prove("tokens not involved keep their partner",
            Or(*([eq(q.a, x) for x in involved] + [eq(partner(E, q), E.frame_o)])))


def setframe(E):
    E.frame_q = Ptr(E.fresh("int", "other"), T)
    E.assume(And(lt(0, E.frame_q.a), lt(E.frame_q.a, 10 ** 9)))
    E.frame_o = partner(E, E.frame_q)


@unit("PairElementToken::PairElementToken()", [T + "::PairElementToken"])
def ctor(E):
    inv_pre(E)
    t = E.construct(T, [])
    E.prove("a new token is unpaired", Not(B(E.call(T + "::isPaired", t))))


@unit("PairElementToken::PairElementToken(PairElementToken&&)", [T + "::PairElementToken"])
def mctor(E):
    a, = toks(E, "a")
    o = partner(E, a)
    setframe(E)
    n = E.construct(T, [E.deref(a)], fn=fn(E, "PairElementToken", T + " &&")["key"])
    n = at(E, n.root[1])
    E.prove("the new token takes the partner over", eq(partner(E, n), o))
    E.prove("the source is unpaired", eq(partner(E, a), 0))
    E.prove("the partner follows the move", Or(eq(o, 0), eq(partner(E, at(E, o)), n.a)))
    frame(E, [a.a, o, n.a], None)
    post_inv(E, [a, n])


@unit("PairElementToken::operator=(PairElementToken&&)", [T + "::operator="])
def massign(E):
    a, b = toks(E, "a", "b")
    oa, ob = partner(E, a), partner(E, b)
    setframe(E)
    E.call(fn(E, "operator=", T + " &&"), a, [E.deref(b)])
    together = eq(oa, b.a)
    E.prove("the partner of the source is taken over", Or(together, eq(partner(E, a), ob)))
    E.prove("the source is unpaired", eq(partner(E, b), 0))
    E.prove("the partner of the source follows", Or(eq(ob, 0), together, eq(partner(E, at(E, ob)), a.a)))
    E.prove("the partner of the overwritten token is unpaired", Or(eq(oa, 0), together, eq(partner(E, at(E, oa)), 0)))
    E.prove("overwriting a token by its own partner leaves it unpaired", Implies(together, eq(partner(E, a), 0)))
    frame(E, [a.a, b.a, oa, ob], None)
    post_inv(E, [a, b])


@unit("PairElementToken::operator=(self)", [T + "::operator="])
def sassign(E):
    a, = toks(E, "a")
    setframe(E)
    oa = partner(E, a)
    E.call(fn(E, "operator=", T + " &&"), a, [E.deref(a)])
    frame(E, [a.a, oa], None)
    post_inv(E, [a])


def handle(E, t):
    """a valid handle on the unpaired token t, through the real constructor"""
    E.assume(eq(partner(E, t), 0))
    c = [f for f in E.prog.byname.get(H + "::PairElementTokenHandle", []) if len(f["params"]) == 1 and
         f["params"][0]["t"] == T + " &"]
    if len(c) != 1:
        raise Unsupported("handle constructor")
    h = E.construct(H, [E.deref(t)], fn=c[0]["key"])
    E.prove("a new handle is valid", B(E.call(H + "::isValid", h)))
    return h


@unit("PairElementToken::PairElementToken(Handle&&)", [T + "::PairElementToken", H + "::PairElementTokenHandle"])
def hctor(E):
    t, = toks(E, "t")
    h = handle(E, t)
    setframe(E)
    n = E.construct(T, [h], fn=fn(E, "PairElementToken", H + " &&")["key"])
    n = at(E, n.root[1])
    E.prove("paired with the token of the handle", And(eq(partner(E, n), t.a), eq(partner(E, t), n.a)))
    E.prove("the handle is consumed", Not(B(E.call(H + "::isValid", h))))
    frame(E, [t.a, n.a], None)
    post_inv(E, [t, n])


@unit("PairElementToken::operator=(Handle&&)", [T + "::operator="])
def hassign(E):
    a, t = toks(E, "a", "t")
    oa = partner(E, a)
    h = handle(E, t)
    setframe(E)
    E.call(fn(E, "operator=", H + " &&"), a, [h])
    E.prove("paired with the token of the handle", And(eq(partner(E, a), t.a), eq(partner(E, t), a.a)))
    E.prove("the partner of the overwritten token is unpaired", Or(eq(oa, 0), eq(partner(E, at(E, oa)), 0)))
    E.prove("the handle is consumed", Not(B(E.call(H + "::isValid", h))))
    frame(E, [t.a, a.a, oa], None)
    post_inv(E, [a, t])


@unit("PairElementToken::~PairElementToken", [T + "::~PairElementToken"])
def dtor(E):
    a, = toks(E, "a")
    o = partner(E, a)
    setframe(E)
    E.call(T + "::~PairElementToken", a)
    E.prove("the partner is unpaired", Or(eq(o, 0), eq(partner(E, at(E, o)), 0)))
    frame(E, [a.a, o], None)
    post_inv(E, [], dead=[a])


@unit("PairElementToken::pairWith", [T + "::pairWith"])
def pair_with(E):
    a, b = toks(E, "a", "b")
    oa, ob = partner(E, a), partner(E, b)
    setframe(E)
    k, v = E.call_x(T + "::pairWith", a, [E.deref(b)])
    both = And(eq(oa, 0), eq(ob, 0))
    if k == "throw":
        E.prove("refused only if one is already paired", Not(both))
        E.prove("a refused pairing changes nothing", And(eq(partner(E, a), oa), eq(partner(E, b), ob)))
        frame(E, [], None)
    else:
        E.prove("accepted only if both are unpaired", both)
        E.prove("paired together", And(eq(partner(E, a), b.a), eq(partner(E, b), a.a)))
        frame(E, [a.a, b.a], None)
    post_inv(E, [a, b])


@unit("PairElementToken observers", [T + "::isPaired", T + "::isPairedWith", T + "::otherPairElement"])
def observers(E):
    a, b = toks(E, "a", "b")
    oa = partner(E, a)
    E.prove("isPaired iff it has a partner", eq(B(E.call(T + "::isPaired", a)), ne(oa, 0)))
    E.prove("isPairedWith iff it is the partner", eq(B(E.call(T + "::isPairedWith", a, [E.deref(b)])), eq(oa, b.a)))
    E.prove("isPairedWith is symmetric", eq(B(E.call(T + "::isPairedWith", a, [E.deref(b)])),
                                            B(E.call(T + "::isPairedWith", b, [E.deref(a)]))))
    k, v = E.call_x(T + "::otherPairElement", a)
    if k == "throw":
        E.prove("otherPairElement is refused only when unpaired", eq(oa, 0))
    else:
        E.prove("otherPairElement is the partner", And(ne(oa, 0), eq(v.root[1], oa)))
