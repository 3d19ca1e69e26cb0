"""Symbolic execution of extracted C++ bodies, one path at a time (re-execution along a decision trail).
Obligations are generated along each path and discharged by z3 (cvc5 as second back end)."""
import json
import os
import subprocess
import time
from fractions import Fraction
import z3
from values import *
import cxxtypes as T

NEW_BASE = 10 ** 9          # addresses of objects allocated during the run; pre-state addresses are below


class RetX(Exception):
    def __init__(self, v):
        self.v = v


class BrkX(Exception):
    pass


class ContX(Exception):
    pass


class ThrowX(Exception):
    """a C++ exception"""

    def __init__(self, t, val=None, loc=None):
        self.t, self.val, self.loc = t, val, loc


class AbortX(Exception):
    """a failed assert"""

    def __init__(self, msg, loc=None):
        self.msg, self.loc = msg, loc


class PathEnd(Exception):
    """this path is infeasible or needs no further exploration"""


class Prog:
    """the extracted program: functions by key and by name, records, enums"""

    def __init__(self):
        self.fn, self.byname, self.rec, self.enums = {}, {}, {}, {}
        self.used = set()

    def load(self, path):
        d = json.load(open(path))
        for f in d["functions"]:
            if f["key"] not in self.fn:
                self.fn[f["key"]] = f
                self.byname.setdefault(f["name"], []).append(f)
        for r in d["records"]:
            o = self.rec.get(r["name"])
            if o is None or (len(r["fields"]) > len(o["fields"])):
                self.rec[r["name"]] = r
        for e in d["enums"]:
            self.enums[e["name"]] = dict((a, b) for a, b in e["values"])

    def fields(self, cls):
        """[(declaring class, field record)] bases first"""
        r = self.rec.get(cls)
        if r is None:
            return []
        out = []
        for b in r["bases"]:
            if b.startswith(("Eigen::Matrix<", "Eigen::Array<", "Eigen::Ref<")):
                out.append((cls, {"name": "#eigen", "t": b}))
            if b.startswith("std::queue<"):
                out.append((b, {"name": "c", "t": T.tmpl(b)[1][1]}))
            out += self.fields(T.strip_const(b))
        for f in r["fields"]:
            out.append((cls, f))
        return out

    def field(self, cls, name):
        for c, f in self.fields(cls):
            if f["name"] == name:
                return c, f
        return None

    def bases(self, cls):
        r = self.rec.get(cls)
        out = [cls]
        if r:
            for b in r["bases"]:
                out += self.bases(T.strip_const(b))
        return out

    def is_repo(self, cls):
        r = self.rec.get(cls)
        return bool(r and r["repo"])

    def find(self, pat, nargs=None, const=None):
        """the unique function whose key equals or whose name equals pat"""
        if pat in self.fn:
            return self.fn[pat]
        c = self.byname.get(pat, [])
        if nargs is not None:
            c = [f for f in c if len(f["params"]) == nargs]
        if const is not None:
            c = [f for f in c if bool(f.get("const")) == const]
        if len(c) == 1:
            return c[0]
        raise Unsupported("function %s: %d candidates" % (pat, len(c)))


# kinds of heap maps
class HMap:
    __slots__ = ("ft", "name", "ups", "base")

    def __init__(self, ft, name, ups=(), base=None):
        self.ft, self.name, self.ups, self.base = ft, name, ups, base


class Obl:
    __slots__ = ("label", "status", "backend", "time", "info", "loc")

    def __init__(self, label, status, backend, time, info=None, loc=None):
        self.label, self.status, self.backend, self.time, self.info, self.loc = label, status, backend, time, info, loc


STATS = {"solver_s": 0.0, "queries": 0, "cvc5": 0}
QUICK_MS = int(os.environ.get("VC_FEAS_MS", "1500"))
PROVE_MS = int(os.environ.get("VC_PROVE_MS", "15000"))


class E:
    """one path of one verification unit"""

    def __init__(self, prog, trail, unit, known=None):
        self.prog = prog
        # answers of the solver on the part of the execution shared with the paths already explored
        self.known = {} if known is None else known
        self.hist, self.nq = 0, 0
        self.trail = trail      # list of [value, open]
        self.pos = 0
        self.unit = unit
        self.solver = z3.Solver()
        self.solver.set("timeout", QUICK_MS)
        self.pc = []
        self.store = {}
        self.heap = {}          # (cls, field) -> HMap ; ('D',) -> memory of doubles
        self.dyn = {}           # address key -> exact dynamic class
        self.nextaddr = NEW_BASE
        self.nextid = 0
        self.addr_of = {}
        self.root_of = {}
        self.env = {}
        self.frames = []
        self.frames_at = None
        self.obls = []
        self.foralls = []       # (name, closure index->Bool)
        self.pairfacts = []
        self.idx = []           # index terms
        self.idxset = set()
        self.idxk = {}         # kind -> index terms
        self.done_inst = set()
        self.done_upto = {}
        self.memo = {}
        self.stubs = {}         # function key or name -> handler(E, this, args, fn)
        self.factids = {}       # definitional facts among the path condition
        self.maploops = []      # rank of a key in the loops over maps under way, innermost last
        self.mapkeys = []       # keys that the loops over maps are to meet
        self.loopinv = {}       # function name -> loops.Ind
        self.loops = {}         # (function name, ordinal) -> handler
        self.inputs = []
        self.assumed = set()
        self.class_inv = {}     # class -> fn(E, Ptr) called once per address on first field read of the pre-state
        self.inv_done = set()
        self.in_inv = False
        self.globals_ = {}
        self.noinst = 0
        self.depth = 0
        self.exec_fns = set()
        self.throw_ok = False
        self.sums = {}
        self.events = []        # observable calls recorded by stubs
        self.inexact = []       # over-approximations made on this path (havoc...)
        self.dtors = False
        self.checks_on = True

    # ---------------------------------------------------------------- basic
    def fresh_id(self):
        self.nextid += 1
        return self.nextid

    def fresh(self, sort, name="t"):
        n = "%s!%d" % (name, self.fresh_id())
        return {"int": z3.Int, "bool": z3.Bool, "real": z3.Real}[sort](n)

    def alloc(self):
        self.nextaddr += 1
        return self.nextaddr

    def newroot(self, v=None):
        r = ("l", self.fresh_id())
        self.store[r] = v
        return LV(r)

    def addr_term(self, lv):
        """address of a location as a scalar, if it has one"""
        if lv.path == ():
            if lv.root[0] == "h":
                return lv.root[1]
            r = lv.root
            if r not in self.addr_of:
                a = self.alloc()
                self.addr_of[r] = a
                self.root_of[a] = r
            return self.addr_of[r]
        return None

    def mkptr(self, lv, cls=None):
        if lv.root[0] == "d":
            s = lv.path[0]
            return PtrD(s[1], s[2])
        a = self.addr_term(lv)
        if a is not None:
            return Ptr(a, cls or lv.cls)
        return PtrL(lv)

    def deref(self, p, cls=None):
        if isinstance(p, PtrL):
            return p.lv
        if isinstance(p, PtrD):
            return LV(("d",), (("d", p.arr, p.off),))
        if isinstance(p, LV):
            return p
        if isinstance(p, Iter):
            import lib
            return lib.iter_lv(self, p)
        if not isinstance(p, Ptr):
            raise Unsupported("dereference of %s" % type(p).__name__)
        a = simp(p.a)
        if not isz(a):
            if a == 0:
                self.prove("null dereference", False, safety=True)
                raise PathEnd()
            if a in self.root_of:
                return LV(self.root_of[a])
            return LV(("h", a), (), p.cls or cls)
        key = ("nn", a.get_id())
        if key not in self.memo:
            self.memo[key] = True
            self.prove("pointer is not null", ne(a, 0), safety=True)
        for c in list(self.root_of):
            if self.may(eq(a, c)):
                if self.branch(eq(a, c)):
                    return LV(self.root_of[c])
        return LV(("h", a), (), p.cls or cls)

    # ---------------------------------------------------------------- solver
    def assume(self, c):
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)

    def fact(self, c):
        """a fact that can be stated at any time (definitional)"""
        c = simp(c)
        if c is True:
            return
        c = B(c)
        self.factids[c.get_id()] = c
        self.pc.append(c)
        self.solver.add(c)

    def forall(self, fn, name="", kind=None):
        """universally quantified fact over indices: instantiated on the index terms of the path; with a kind, only on
        the terms registered with that kind"""
        self.foralls.append((len(self.foralls), fn, kind))
        self.inst()

    def index(self, k, *kinds):
        """register an index term for instantiation of the universal facts (of these kinds only, if any is given)"""
        k = simp(k)
        key = k.get_id() if isz(k) else k
        if kinds:
            for kind in kinds:
                if (kind, key) not in self.idxset:
                    self.idxset.add((kind, key))
                    self.idxk[kind] = self.idxk.get(kind, []) + [k]
            return k
        if key in self.idxset:
            return k
        self.idxset.add(key)
        self.idx.append(k)
        return k

    def inst(self):
        if self.noinst:
            return
        self.noinst += 1
        try:
            again = True
            rounds = 0
            while again and rounds < 3:
                again = False
                rounds += 1
                for (n, fn, kind) in list(self.foralls):
                    ks = self.idx if kind is None else self.idxk.get(kind, ())
                    done = self.done_upto.get(n, 0)
                    if done >= len(ks):
                        continue
                    again = True
                    ks = list(ks)
                    self.done_upto[n] = len(ks)
                    for k in ks[done:]:
                        self.fact(fn(k))
                for n, fn in enumerate(list(self.pairfacts)):
                    for a in list(self.idx):
                        for b in list(self.idx):
                            key = ("p", n, a.get_id() if isz(a) else a, b.get_id() if isz(b) else b)
                            if key in self.done_inst:
                                continue
                            self.done_inst.add(key)
                            again = True
                            self.fact(fn(a, b))
        finally:
            self.noinst -= 1

    def check(self, *cs):
        t = time.time()
        STATS["queries"] += 1
        r = self.solver.check(*[B(c) for c in cs])
        STATS["solver_s"] += time.time() - t
        return r

    def may(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        self.inst()
        return self.again(lambda: self.check(c) != z3.unsat)

    def must(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        self.inst()
        return self.again(lambda: self.check(Not(c)) == z3.unsat)

    def again(self, ask):
        """the same question at the same point of the re-execution has the same answer"""
        key = (self.hist, self.nq)
        self.nq += 1
        if key not in self.known:
            self.known[key] = ask()
        return self.known[key]

    def decided(self, d):
        self.hist, self.nq = hash((self.hist, d)), 0

    def branch(self, c):
        c = simp(c)
        if isz(c) and not z3.is_bool(c):
            c = simp(ne(c, 0))
        if not isz(c):
            return bool(c)
        self.inst()
        if self.pos < len(self.trail):
            d = self.trail[self.pos][0]
            self.pos += 1
        else:
            t, f = self.again(lambda: self.feasible(c))
            if t == z3.unsat and f == z3.unsat:
                raise PathEnd()
            if t == z3.unsat:
                d, op = False, False
            elif f == z3.unsat:
                d, op = True, False
            else:
                d, op = True, True
            self.trail.append([d, op])
            self.pos += 1
        cc = c if d else Not(c)
        self.decided(d)
        self.pc.append(cc)
        self.solver.add(cc)
        return d

    def feasible(self, c):
        t = self.check(c)
        return t, (self.check(Not(c)) if t != z3.unsat else z3.sat)

    def choose(self, label=""):
        """non-deterministic binary choice (both sides explored)"""
        b = self.fresh("bool", "choice" + label)
        return self.branch(b)

    def explore_sub(self, body, limit=400):
        """all paths of body() from the current state. Returns [(pc delta, result, state)]; the state is restored."""
        saved = self.save()
        trail0, pos0 = self.trail, self.pos
        out = []
        self.trail, self.pos = [], 0
        n = 0
        hist = self.hist
        try:
            while True:
                n += 1
                if n > limit:
                    raise Unsupported("too many paths in a loop body")
                self.pos = 0
                self.hist = hist
                self.decided("sub")
                self.solver.push()
                npc = len(self.pc)
                try:
                    try:
                        r = body()
                        out.append((self.pc[npc:], r, self.save()))
                    except PathEnd:
                        pass
                finally:
                    self.solver.pop()
                    self.restore(saved)
                while self.trail and not self.trail[-1][1]:
                    self.trail.pop()
                if not self.trail:
                    break
                self.trail[-1] = [not self.trail[-1][0], False]
        finally:
            self.trail, self.pos = trail0, pos0
            self.hist = hist
            self.decided("after")
        return out

    def save(self):
        return (dict(self.store), dict(self.heap), list(self.pc), dict(self.env), list(self.idx), set(self.idxset),
                set(self.done_inst), list(self.foralls), dict(self.memo), dict(self.dyn), list(self.events),
                set(self.inv_done), list(self.pairfacts), dict(self.globals_), dict(self.idxk), dict(self.done_upto))

    def restore(self, s):
        self.store, self.heap, self.pc, self.env = dict(s[0]), dict(s[1]), list(s[2]), dict(s[3])
        self.idx, self.idxset, self.done_inst = list(s[4]), set(s[5]), set(s[6])
        self.foralls, self.memo, self.dyn, self.events = list(s[7]), dict(s[8]), dict(s[9]), list(s[10])
        self.inv_done, self.pairfacts, self.globals_, self.idxk = set(s[11]), list(s[12]), dict(s[13]), dict(s[14])
        self.done_upto = dict(s[15])

    # ---------------------------------------------------------------- obligations
    def prove(self, label, c, safety=False, loc=None):
        if safety and not self.checks_on:
            return True
        if getattr(self, "quiet", 0):
            # looking for what a loop modifies: the obligations of its body are stated in the induction step
            if safety:
                if not self.may(c):
                    raise PathEnd()
                self.assume(c)
            return True
        t0 = time.time()
        lab = ("safety: " if safety else "") + label
        if safety and self.frames:
            lab += " in " + self.frames[-1]
        try:
            c = simp(c)
        except z3.Z3Exception:
            pass
        if c is True:
            self.obls.append(Obl(lab, "proved", "simplifier", 0.0))
            return True
        self.inst()
        if (self.hist, self.nq) in self.known:      # decided on a path explored before: recorded once
            st = self.again(None)
            if st == "proved":
                self.fact(c)
                return True
            return self.limp(c) if safety else False
        st, be, model, reason = self.decide(c)
        self.again(lambda: st)
        dt = time.time() - t0
        info = None
        if st == "failed":
            info = self.describe(model, c)
        elif st == "unknown":
            info = {"reason": reason}
        self.obls.append(Obl(lab, st, be, dt, info, self.frames[-1] if self.frames else None))
        if st == "proved":
            self.fact(c)
            return True
        if os.environ.get("VC_DEBUG"):
            print("   !!", st, self.unit, lab, info if info is None else {k: info[k] for k in list(info)[:2]}, "goal:", str(c)[:300])
        return self.limp(c) if safety else False

    def limp(self, c):
        """do not cascade: continue only where the check holds"""
        if self.may(c):
            self.assume(c)
        else:
            raise PathEnd()
        return False

    def decide(self, c):
        nc = Not(c) if isz(c) else z3.BoolVal(not c)
        t = time.time()
        STATS["queries"] += 1
        s = z3.Solver()
        s.set("timeout", PROVE_MS)
        for a in self.pc:
            s.add(a)
        s.add(nc)
        r = s.check()
        STATS["solver_s"] += time.time() - t
        if r == z3.unsat:
            return "proved", "z3", None, None
        if r != z3.unsat and self.sums and isz(c):
            from sums import extensional
            eqs = extensional(self, c)
            if eqs:
                for q in eqs:
                    self.fact(q)
                    s.add(q)
                r = s.check()
                if r == z3.unsat:
                    return "proved", "z3", None, None
        if r == z3.sat:
            m = s.model()
            return "failed", "z3", m, None
        reason = s.reason_unknown()
        for last in (12, 60):                   # the latest facts alone: less to search through
            few = z3.Solver()
            few.set("timeout", 2000)
            few.add(*self.pc[-last:])
            few.add(nc)
            if few.check() == z3.unsat:
                return "proved", "z3", None, None
        # second back end
        t = time.time()
        r2 = cvc5_check(s.to_smt2())
        STATS["solver_s"] += time.time() - t
        if r2 == "unsat":
            STATS["cvc5"] += 1
            return "proved", "cvc5", None, None
        if r2 == "sat":
            return "failed", "cvc5", None, None
        return "unknown", "z3+cvc5", None, reason

    def describe(self, m, c):
        d = {"goal": str(c)[:600]}
        if m is not None:
            ins = {}
            for n, t in self.inputs:
                try:
                    v = m.eval(Z(t), model_completion=True)
                    ins[n] = str(v)
                except Exception:
                    pass
            d["inputs"] = ins
        d["path"] = [str(x)[:160] for x in self.pc[-8:]]
        d["inexact"] = list(self.inexact)
        return d

    def input(self, name, t):
        self.inputs.append((name, t))
        return t

    # ---------------------------------------------------------------- symbolic values by type
    def sym(self, t, name, args=(), cls=None):
        """an arbitrary value of C++ type t, a function of args"""
        t0 = T.strip_const(T.cvref(t))
        ar = [I(a) for a in args]

        def term(sort, nm=name):
            s = {"int": z3.IntSort(), "bool": z3.BoolSort(), "real": z3.RealSort()}[sort]
            if not ar:
                return z3.Const(nm, s)
            return z3.Function(nm, *([z3.IntSort()] * len(ar) + [s]))(*ar)

        if t0 == "bool":
            return term("bool")
        if t0 in T.INT_TYPES:
            x = term("int")
            if t0 in T.UNSIGNED:
                self.fact_once(x, x >= 0)
            return x
        if t0 in T.REAL_TYPES:
            return term("real")
        if t0 in self.prog.enums:
            x = term("int")
            vs = sorted(set(self.prog.enums[t0].values()))
            if vs and vs == list(range(vs[0], vs[-1] + 1)):
                self.fact_once(x, z3.And(x >= vs[0], x <= vs[-1]))
            elif vs:
                self.fact_once(x, z3.Or(*[x == v for v in vs]))
            return x
        if T.is_ptr(t0):
            p = T.strip_const(T.pointee(t0))
            if p in T.REAL_TYPES:
                arr, off = term("int", name + ".arr"), term("int", name + ".off")
                self.fact_once(arr, z3.And(arr >= 0, arr < NEW_BASE))
                return PtrD(arr, off)
            x = term("int")
            self.fact_once(x, z3.And(x >= 0, x < NEW_BASE))
            return Ptr(x, p)
        b, ta = T.tmpl(t0)
        if b in T.SMART:
            p = T.strip_const(ta[0])
            x = term("int")
            self.fact_once(x, z3.And(x >= 0, x < NEW_BASE))
            return Ptr(x, p)
        if b in ("std::vector", "std::list", "std::deque", "std::__cxx11::list", "std::initializer_list"):
            n = term("int", name + ".n")
            self.fact_once(n, n >= 0)
            return Vec(n, lambda k: self.sym(ta[0], name + "[]", list(args) + [self.index(k)]), ta[0], name)
        if b == "std::array":
            return Vec(int(ta[1].rstrip("UL")), lambda k: self.sym(ta[0], name + "[]", list(args) + [k]), ta[0], name)
        if b in ("std::map", "std::unordered_map"):
            def has(k):
                return self.sym("bool", name + ".has", list(args) + self.keyargs(k))

            def get(k):
                return self.sym(ta[1], name + "{}", list(args) + self.keyargs(k))
            n = term("int", name + ".n")
            self.fact_once(n, n >= 0)
            return MapV(has, get, ta[0], ta[1], n)
        if b in ("std::set", "std::unordered_set"):
            def has(k):
                return self.sym("bool", name + ".has", list(args) + self.keyargs(k))
            n = term("int", name + ".n")
            self.fact_once(n, n >= 0)
            return MapV(has, lambda k: k, ta[0], ta[0], n)
        if b == "std::pair":
            return Struct(t0, {}, lambda f: self.sym(ta[0] if f == "first" else ta[1], name + "." + f, args))
        if b in ("std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view"):
            return Opaque(t0)
        if b == "std::function":
            return Opaque(t0)
        if b == "mpark::variant":
            return Struct("mpark::variant", {}, lambda f: self.variant_field(ta, f, name, args))
        if t0.startswith("Eigen::"):
            return self.sym_eigen(t0, name, args)
        if t0 in self.prog.rec:
            def lazy(f):
                cf = self.prog.field(t0, f)
                if cf is None:
                    raise Unsupported("no field %s in %s" % (f, t0))
                return self.sym(cf[1]["t"], name + "." + f, args)
            return Struct(t0, {}, lazy)
        raise Unsupported("symbolic value of type " + t0)

    def variant_field(self, ta, f, name, args):
        if f == "idx":
            x = self.sym("int", name + ".idx", args)
            self.fact_once(x, z3.And(x >= 0, x < len(ta)))
            return x
        return self.sym(ta[int(f[3:])], name + "." + f, args)

    def keyargs(self, k):
        if isinstance(k, Ptr):
            return [k.a]
        if isscalar(k):
            return [k]
        if isinstance(k, Struct):
            r = []
            for f in sorted(k.f):
                r += self.keyargs(k.f[f])
            return r
        raise Unsupported("map key")

    def fact_once(self, t, c):
        key = ("f1", t.get_id())
        if key not in self.memo:
            self.memo[key] = t
            self.fact(c)

    def eigen_dims(self, t):
        """(rows, cols, scalar) from the type; None if dynamic"""
        b, ta = T.tmpl(t)
        if b in ("Eigen::Matrix", "Eigen::Array"):
            r, c = int(ta[1]), int(ta[2])
            return (None if r < 0 else r), (None if c < 0 else c), ta[0]
        if b in ("Eigen::Ref", "Eigen::Map", "Eigen::Block", "Eigen::Transpose", "Eigen::VectorBlock"):
            r, c, s = self.eigen_dims(T.strip_const(ta[0]))
            if b == "Eigen::Block":
                r, c = (int(ta[1]), int(ta[2]))
                r, c = (None if r < 0 else r), (None if c < 0 else c)
            elif b == "Eigen::VectorBlock":
                r = None
            return r, c, s
        if b == "Eigen::DiagonalMatrix":
            return None, None, ta[0]
        raise Unsupported("eigen type " + t)

    def sym_eigen(self, t, name, args):
        r, c, s = self.eigen_dims(t)
        ar = [I(a) for a in args]

        def dim(nm):
            x = z3.Function(nm, *([z3.IntSort()] * (len(ar) + 1)))(*ar) if ar else z3.Int(nm)
            self.fact_once(x, x >= 0)
            return x
        if r is None:
            r = dim(name + ".rows")
        if c is None:
            c = dim(name + ".cols")
        b, ta = T.tmpl(t)
        if b == "Eigen::Ref" and not ta[0].startswith("const ") and s == "double":
            # a writable view of memory
            ia = [z3.IntSort()] * (len(ar) + 1)
            arr = z3.Function(name + ".arr", *ia)(*ar) if ar else z3.Int(name + ".arr")
            off = z3.Function(name + ".off", *ia)(*ar) if ar else z3.Int(name + ".off")
            self.fact_once(arr, z3.And(arr >= 0, arr < NEW_BASE))
            return MapMem(arr, off, r, c)
        srt = z3.IntSort() if s in T.INT_TYPES else (z3.BoolSort() if s == "bool" else z3.RealSort())
        if c == 1 and not isz(c):
            f = z3.Function(name, *([z3.IntSort()] * (len(ar) + 1) + [srt]))
            return Mat(r, c, lambda i, j: f(*(ar + [I(i)])), s)
        f = z3.Function(name, *([z3.IntSort()] * (len(ar) + 2) + [srt]))
        return Mat(r, c, lambda i, j: f(*(ar + [I(i), I(j)])), s)

    # ---------------------------------------------------------------- memory
    def hmap(self, cls, f):
        key = (cls, f)
        if key not in self.heap:
            fr = None
            for ff in self.prog.rec.get(cls, {"fields": []})["fields"]:
                if ff["name"] == f:
                    fr = ff
            if f == "#eigen":
                fr = self.prog.field(cls, f)[1]
            if fr is None:
                raise Unsupported("no field %s::%s" % (cls, f))
            self.heap[key] = HMap(fr["t"], "%s.%s" % (cls.replace("tvm::", ""), f))
        return self.heap[key]

    def hbase(self, key, h, a):
        """initial value of the field at address a"""
        k = ("hb", key, a.get_id() if isz(a) else a, h.name)
        if k in self.memo:
            return self.memo[k][0]
        if T.is_ref(h.ft):
            x = self.sym("int", h.name + "&", [a])
            self.fact_once(x, z3.And(x > 0, x < NEW_BASE))
            v = RefVal(LV(("h", x), (), T.strip_const(T.cvref(h.ft))))
        else:
            v = self.sym(h.ft, h.name, [a])
        self.memo[k] = (v, a)
        return v

    def run_class_inv(self, cls, a):
        key = (cls, a.get_id() if isz(a) else a)
        if key in self.inv_done or self.in_inv:
            return
        self.inv_done.add(key)
        inv = self.class_inv.get(cls)
        if inv:
            self.memo[("invkeep", key)] = a
            self.in_inv = True
            try:
                # the invariant speaks of the pre-state
                cur = self.heap
                self.heap = {k: (HMap(h.ft, h.name) if isinstance(h, HMap) else h) for k, h in cur.items()}
                inv(self, Ptr(a, cls))
                self.heap = cur
            finally:
                self.in_inv = False

    def hread(self, cls, f, a):
        h = self.hmap(cls, f)
        a = simp(a)

        def go(i):
            while i >= 0:
                ua, uv = h.ups[i]
                c = simp(eq(ua, a))
                if c is True:
                    return uv
                if c is False or (isz(c) and not self.may(c)):
                    i -= 1
                    continue
                if self.must(c):
                    return uv
                return merge(c, uv, go(i - 1))
            if not isz(a) and a > NEW_BASE:
                return UNINIT
            v = self.hbase((cls, f), h, a)
            if self.class_inv:
                self.run_class_inv(cls, a)
            return v
        return go(len(h.ups) - 1)

    def hwrite(self, cls, f, a, v):
        h = self.hmap(cls, f)
        a = simp(a)
        ups = h.ups
        if ups and not isz(a):
            ups = tuple(u for u in ups if isz(u[0]) or u[0] != a) if all(not isz(u[0]) for u in ups) else ups
        self.heap[(cls, f)] = HMap(h.ft, h.name, ups + ((a, v),), h.base)

    # memory of doubles: functional closure
    def dmem(self):
        if ("D",) not in self.heap:
            f = z3.Function("D0", z3.IntSort(), z3.IntSort(), z3.RealSort())
            self.heap[("D",)] = lambda arr, k: f(I(arr), I(k))
        return self.heap[("D",)]

    def dread(self, arr, k):
        return self.dmem()(simp(arr), simp(k))

    def dwrite_region(self, arr, off, n, get, rs=1):
        """cells off + i (0<=i<n) of arr := get(i)"""
        old = self.dmem()
        if rs != 1:
            raise Unsupported("strided memory write")

        def new(a, k):
            inr = simp(And(eq(a, arr), le(off, k), lt(k, add(off, n))))
            if inr is True:
                return get(simp(sub(k, off)))
            if inr is False:
                return old(a, k)
            return ite(inr, get(simp(sub(k, off))), old(a, k))
        self.heap[("D",)] = new

    def read(self, lv):
        r = lv.root
        p = lv.path
        if r[0] == "d":
            v = self.dread(p[0][1], p[0][2])
            p = p[1:]
        elif r[0] == "h":
            if not p:
                return self.read_obj(lv)
            s = p[0]
            if s[0] != "f":
                raise Unsupported("bad heap access %r" % (s,))
            v = self.hread(s[2], s[1], r[1])
            p = p[1:]
        elif r[0] == "g":
            if r not in self.globals_:
                raise Unsupported("global " + str(r[1]))
            v = self.globals_[r]
        elif r[0] == "v":
            v = r[1]
        else:
            v = self.store[r]
        for s in p:
            v = self.step(v, s)
        return v

    def read_obj(self, lv):
        """snapshot of a heap object"""
        cls = lv.cls
        a = lv.root[1]
        d = self.dyncls(a) or cls
        if d is None:
            raise Unsupported("object of unknown class")
        if not self.prog.fields(d) and not self.prog.is_repo(d):
            # a boxed non-class value (e.g. make_shared<double>)
            return self.hread_box(d, a)
        f = {}
        for c, fr in self.prog.fields(d):
            f[fr["name"]] = None
        snap = self.heap.copy()

        def lazy(n):
            c, fr = self.prog.field(d, n)
            cur = self.heap
            self.heap = dict(snap)
            try:
                return self.hread(c, n, a)
            finally:
                self.heap = cur
        return Struct(d, {}, lazy)

    def hread_box(self, d, a):
        raise Unsupported("boxed value of class " + str(d))

    def step(self, v, s):
        if isinstance(v, RefVal):
            v = self.read(v.lv)
        if s[0] == "f":
            if isinstance(v, Struct):
                return v.get(s[1])
            if isinstance(v, Uninit):
                return UNINIT
        elif s[0] == "ix":
            if isinstance(v, Vec):
                return v.get(s[1])
        elif s[0] == "mat":
            m = self.asmat(v)
            return m.get(s[1], s[2])
        elif s[0] == "key":
            return v.get(s[1])
        raise Unsupported("access %r on %s" % (s[0], type(v).__name__))

    def update(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if isinstance(v, RefVal):
            self.write(LV(v.lv.root, v.lv.path + tuple(path)), val)
            return v
        if s[0] == "f":
            if isinstance(v, Uninit):
                v = Struct(None, {})
            if not isinstance(v, Struct):
                raise Unsupported("field write on %s" % type(v).__name__)
            return v.with_(s[1], val if len(path) == 1 else self.update(v.get(s[1]), path[1:], val))
        if s[0] == "ix":
            return v.set(s[1], val if len(path) == 1 else self.update(v.get(s[1]), path[1:], val))
        if s[0] == "key":
            return v.put(s[1], val if len(path) == 1 else self.update(v.get(s[1]), path[1:], val))
        if s[0] == "mat":
            if isinstance(v, Mat):
                g = v.get
                i0, j0 = s[1], s[2]

                def get(i, j):
                    c = simp(And(eq(i, i0), eq(j, j0)))
                    if c is True:
                        return val
                    if c is False:
                        return g(i, j)
                    return ite(c, val, g(i, j))
                return Mat(v.r, v.c, get, v.st)
        raise Unsupported("write %r on %s" % (s[0], type(v).__name__))

    def write(self, lv, val):
        r, p = lv.root, lv.path
        if r[0] == "d":
            arr, k = p[0][1], p[0][2]
            self.dwrite_region(arr, k, 1, lambda i: val)
            return
        # writing one coefficient through a view stored at the prefix
        if p and p[-1][0] == "mat":
            base = self.read(LV(r, p[:-1], lv.cls))
            if isinstance(base, RefVal):
                return self.write(base.lv.step(*p[-1]), val)
            if isinstance(base, View):
                return self.write(self.view_elem(base, p[-1][1], p[-1][2]), val)
            if isinstance(base, MapMem):
                return self.write(self.mapmem_elem(base, p[-1][1], p[-1][2]), val)
        if r[0] == "h":
            if not p:
                if not isinstance(val, Struct):
                    raise Unsupported("object write")
                d = self.dyncls(r[1]) or lv.cls or val.cls
                for c, fr in self.prog.fields(d):
                    self.hwrite(c, fr["name"], r[1], val.get(fr["name"]))
                return
            s = p[0]
            if len(p) == 1:
                self.hwrite(s[2], s[1], r[1], val)
            else:
                self.hwrite(s[2], s[1], r[1], self.update(self.hread(s[2], s[1], r[1]), p[1:], val))
            return
        if r[0] == "g":
            self.globals_[r] = self.update(self.globals_.get(r), p, val)
            return
        if r[0] == "v":
            raise Unsupported("write to a constant")
        self.store[r] = self.update(self.store.get(r), p, val)

    # ---------------------------------------------------------------- Eigen objects
    def view_elem(self, v, i, j):
        if v.dg:
            a = simp(add(v.i0, i)); b = simp(add(v.j0, i))
        elif v.tr:
            a, b = simp(add(v.i0, j)), simp(add(v.j0, i))
        else:
            a, b = simp(add(v.i0, i)), simp(add(v.j0, j))
        base = self.read(v.lv)
        if isinstance(base, View):
            return self.view_elem(base, a, b)
        if isinstance(base, MapMem):
            return self.mapmem_elem(base, a, b)
        if isinstance(base, RefVal):
            return base.lv.step("mat", a, b)
        return v.lv.step("mat", a, b)

    def mapmem_elem(self, m, i, j):
        k = add(m.off, mul(i, m.rs))
        if not (not isz(m.c) and m.c == 1):
            k = add(k, mul(j, m.cs))
        return LV(("d",), (("d", m.arr, simp(k)),))

    def asmat(self, v):
        """snapshot of an Eigen value/expression as element closure"""
        if isinstance(v, Mat):
            return v
        if isinstance(v, LV):
            return self.asmat(self.read(v))
        if isinstance(v, Struct) and self.prog.field(v.cls, "#eigen"):
            return self.asmat(v.get("#eigen"))
        if isinstance(v, RefVal):
            return self.asmat(self.read(v.lv))
        if isinstance(v, View):
            b = self.asmat(self.read(v.lv))
            if v.dg:
                return Mat(v.r, v.c, lambda i, j: b.get(simp(add(v.i0, i)), simp(add(v.j0, i))), b.st)
            if v.tr:
                return Mat(v.r, v.c, lambda i, j: b.get(simp(add(v.i0, j)), simp(add(v.j0, i))), b.st)
            return Mat(v.r, v.c, lambda i, j: b.get(simp(add(v.i0, i)), simp(add(v.j0, j))), b.st)
        if isinstance(v, MapMem):
            D = self.dmem()

            def get(i, j):
                k = add(v.off, mul(i, v.rs))
                if not (not isz(v.c) and v.c == 1):
                    k = add(k, mul(j, v.cs))
                return D(v.arr, simp(k))
            return Mat(v.r, v.c, get)
        if isscalar(v):
            return Mat(1, 1, lambda i, j: v)
        raise Unsupported("not a matrix: %s" % type(v).__name__)

    def eigen_part(self, v):
        """the Eigen base of an object of a class derived from an Eigen matrix"""
        while isinstance(v, LV):
            c = self.read(v)
            if isinstance(c, RefVal):
                v = c.lv
                continue
            if isinstance(c, Struct) and self.prog.field(c.cls, "#eigen"):
                return v.step("f", "#eigen", self.prog.field(c.cls, "#eigen")[0])
            break
        if isinstance(v, Struct) and self.prog.field(v.cls, "#eigen"):
            return v.get("#eigen")
        return v

    def assign_mat(self, lv, src, resize=True, op=None):
        """lv = src (op: function old,new -> value for += and the like)"""
        lv = self.eigen_part(lv)
        cur = self.read(lv)
        if isinstance(cur, RefVal):
            return self.assign_mat(cur.lv, src, resize, op)
        src = self.asmat(src)
        if isinstance(cur, (View, MapMem)):
            return self.assign_view(cur, src, op)
        if isinstance(cur, Mat):
            if op is not None or not resize:
                self.prove("matching sizes", And(eq(cur.r, src.r), eq(cur.c, src.c)), safety=True)
            g = src.get
            if op is None:
                self.write(lv, Mat(src.r, src.c, g, cur.st))
            else:
                o = cur.get
                self.write(lv, Mat(cur.r, cur.c, lambda i, j: op(o(i, j), g(i, j)), cur.st))
            return
        if isinstance(cur, Uninit) or cur is None:
            self.write(lv, Mat(src.r, src.c, src.get, src.st))
            return
        raise Unsupported("matrix assignment to %s" % type(cur).__name__)

    def assign_view(self, v, src, op=None):
        src = self.asmat(src)
        self.prove("matching sizes", And(eq(v.r, src.r), eq(v.c, src.c)), safety=True)
        if isinstance(v, MapMem):
            old = self.asmat(v)
            f = (lambda i: src.get(i, 0)) if op is None else (lambda i: op(old.get(i, 0), src.get(i, 0)))
            if not isz(v.c) and v.c == 1 and not isz(v.rs) and v.rs == 1:
                self.dwrite_region(v.arr, v.off, v.r, f)
                return
            raise Unsupported("matrix memory map write")
        base = self.read(v.lv)
        if isinstance(base, RefVal):
            return self.assign_view(View(base.lv, v.i0, v.j0, v.r, v.c, v.tr, v.dg), src, op)
        if isinstance(base, View):
            if base.dg or v.dg:
                raise Unsupported("write through nested diagonal view")
            if base.tr:
                return self.assign_view(View(base.lv, add(base.i0, v.j0), add(base.j0, v.i0), v.r, v.c, not v.tr), src, op)
            return self.assign_view(View(base.lv, add(base.i0, v.i0), add(base.j0, v.j0), v.r, v.c, v.tr), src, op)
        if isinstance(base, MapMem):
            if not isz(base.c) and base.c == 1 and not v.tr and not v.dg:
                return self.assign_view(MapMem(base.arr, simp(add(base.off, v.i0)), v.r, 1), src, op)
            raise Unsupported("write through view of a memory map")
        b = self.asmat(base)
        g, s = b.get, src.get

        def get(i, j):
            if v.dg:
                inr = simp(And(le(v.i0, i), lt(i, add(v.i0, v.r)), eq(sub(i, v.i0), sub(j, v.j0))))
                a, bb = simp(sub(i, v.i0)), 0
            else:
                rr, cc = (v.c, v.r) if v.tr else (v.r, v.c)
                inr = simp(And(le(v.i0, i), lt(i, add(v.i0, rr)), le(v.j0, j), lt(j, add(v.j0, cc))))
                a, bb = simp(sub(i, v.i0)), simp(sub(j, v.j0))
                if v.tr:
                    a, bb = bb, a
            if inr is False:
                return g(i, j)
            nv = s(a, bb) if op is None else op(g(i, j), s(a, bb))
            if inr is True:
                return nv
            return ite(inr, nv, g(i, j))
        self.write(v.lv, Mat(b.r, b.c, get, b.st))

    # sums with a canonical form: sum_{k<n} body(k)
    def msum(self, n, body):
        n = simp(n)
        if not isz(n):
            if n <= 8:
                r = Fraction(0)
                for k in range(n):
                    r = add(r, body(k))
                return r
        from sums import mk_sum
        return mk_sum(self, n, body)

    # ---------------------------------------------------------------- dynamic class
    def dkey(self, a):
        a = simp(a)
        return a.get_id() if isz(a) else a

    def dyncls(self, a):
        return self.dyn.get(self.dkey(a))

    def set_dyn(self, a, cls):
        self.memo[("dynkeep", self.dkey(a))] = simp(a)
        self.dyn[self.dkey(a)] = cls

    # ---------------------------------------------------------------- harness API
    def obj(self, cls, name, exact=True, nonnull=True):
        """an arbitrary pre-state object of class cls: returns Ptr"""
        a = z3.Int(name)
        self.fact(z3.And(a > 0, a < NEW_BASE))
        p = Ptr(a, cls)
        if exact:
            self.set_dyn(a, cls)
        return p

    def fld(self, p, name):
        """current value of field `name` of object p (Ptr or LV or Struct)"""
        if isinstance(p, Struct):
            return p.get(name)
        lv = self.fld_lv(p, name)
        v = self.read(lv)
        return v

    def fld_lv(self, p, name):
        if isinstance(p, Ptr):
            cls = self.dyncls(p.a) or p.cls
            a = simp(p.a)
            if not isz(a) and a in self.root_of:
                lv = LV(self.root_of[a])
            else:
                lv = LV(("h", a), (), cls)
        else:
            lv = p
            cls = lv.cls or (self.read(lv).cls)
        cf = self.prog.field(cls, name)
        if cf is None:
            raise Unsupported("no field %s in %s" % (name, cls))
        return lv.step("f", name, cf[0])

    def setfld(self, p, name, v):
        self.write(self.fld_lv(p, name), v)

    def new_obj(self, cls):
        a = self.alloc()
        self.set_dyn(a, cls)
        for c, fr in self.prog.fields(cls):
            self.hwrite(c, fr["name"], a, UNINIT)
        return LV(("h", a), (), cls)

    def local(self, v, cls=None):
        lv = self.newroot(v)
        lv.cls = cls
        return lv

    def call(self, fn, this=None, args=(), nargs=None, const=None):
        """call a repo function by key or (unique) name"""
        f = self.prog.find(fn, len(args) if nargs is None else nargs, const) if isinstance(fn, str) else fn
        if isinstance(this, Ptr):
            this = self.deref(this)
        from interp import call_function
        return call_function(self, f, this, list(args))

    def call_x(self, fn, this=None, args=(), **kw):
        """-> ('ret', value) | ('throw', type) | ('abort', message)"""
        try:
            return "ret", self.call(fn, this, args, **kw)
        except ThrowX as t:
            return "throw", t.t
        except AbortX as a:
            return "abort", a.msg

    def construct(self, cls, args=(), fn=None, heap=True):
        from interp import construct_by_args
        return construct_by_args(self, cls, list(args), fn, heap)

    def skolem(self, name="i", *kinds):
        k = self.fresh("int", name)
        self.index(k, *kinds)
        return k


_cvc5 = None


def cvc5_check(smt2):
    try:
        p = subprocess.run(["cvc5", "--tlimit=10000", "--lang=smt2"], input=smt2, capture_output=True, text=True,
                           timeout=15)
        o = p.stdout.strip().splitlines()
        return o[-1] if o else "unknown"
    except Exception:
        return "unknown"
