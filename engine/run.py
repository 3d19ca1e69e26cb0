"""Extraction of /repo's current sources, generation and discharge of the obligations of the contract units."""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)

LLVM = "/usr/lib/llvm-18"
CPPX_FLAGS = ["-O0", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
              "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
INCS = ["-I" + HERE + "/shim", "-I" + REPO + "/include", "-I" + REPO + "/3rd-party", "-I" + REPO + "/src",
        "-isystem", "/usr/include/eigen3"]


def cppx(wait=True):
    """path of the extractor, built from engine/extract.cpp when absent"""
    src = HERE + "/extract.cpp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    d = VERIF + "/.cache"
    os.makedirs(d, exist_ok=True)
    out = d + "/cppx-" + h
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        subprocess.run(["clang++"] + CPPX_FLAGS + [src, "-o", tmp, "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1",
                                               "-L" + LLVM + "/lib", "-lLLVM-18"], check=True)
        os.rename(tmp, out)
    return out


def resolve(tu):
    return tu if tu.startswith("/") else (HERE + "/tus/" + tu[4:] if tu.startswith("tus/") else REPO + "/" + tu)


def extract(tus, workdir):
    """run the extractor on each translation unit; returns (json paths, errors)"""
    x = cppx()
    ps = []
    for i, t in enumerate(tus):
        o = "%s/x%d.json" % (workdir, i)
        cmd = [x, o, REPO + "/include/tvm," + REPO + "/src", resolve(t), "--", "-std=c++17", "-resource-dir",
               LLVM + "/lib/clang/18"] + INCS + ["-w"]
        ps.append((t, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    outs, errs = [], []
    for t, o, p in ps:
        try:
            so, se = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            errs.append("%s: extraction timed out" % t)
            continue
        if p.returncode != 0 or not os.path.exists(o):
            errs.append("%s: extraction failed: %s" % (t, (se or so)[-400:]))
        else:
            outs.append(o)
    return outs, errs


class Unit:
    def __init__(self, name, fn, functions, limit):
        self.name, self.fn, self.functions, self.limit = name, fn, functions, limit


REG = []


def unit(name, functions=(), limit=3000):
    """register a contract unit: fn(E) sets up the pre-state, runs the function under contract and proves its post"""
    def deco(fn):
        REG.append(Unit(name, fn, list(functions), limit))
        return fn
    return deco


def run_unit(prog, u, budget):
    """explore every path of the unit"""
    import sym
    from values import Unsupported
    t0 = time.time()
    trail, known = [], {}
    res = {"unit": u.name, "paths": 0, "ended": 0, "obls": [], "undecided": [], "assumed": [], "vacuous": None,
           "functions": u.functions, "inputs": {}}
    st0 = dict(sym.STATS)
    prog.used = set()
    reached = False
    while True:
        E = sym.E(prog, trail, u.name, known)
        try:
            u.fn(E)
            E.inst()
            if not reached and E.check() != sym.z3.unsat:
                reached = True
                # canary: an obligation that must not be discharged in this context
                if E.decide(False)[0] == "proved":
                    reached = False
        except sym.PathEnd:
            res["ended"] += 1
        except Unsupported as x:
            msg = "%s [in %s]" % (x, " > ".join(E.frames_at or E.frames))
            if msg not in res["undecided"]:
                res["undecided"].append(msg)
            if os.environ.get("VC_TRACE"):
                traceback.print_exc()
        except (sym.ThrowX, sym.AbortX) as x:
            E.obls.append(sym.Obl("no escape: %s" % (getattr(x, "t", None) or getattr(x, "msg", "")), "failed", "-", 0.0,
                                  E.describe(None, "unreachable"), str(getattr(x, "loc", ""))))
        except (KeyError, TypeError, AttributeError, AssertionError, ValueError, IndexError, RecursionError,
                sym.z3.Z3Exception, NotImplementedError) as x:
            msg = "engine: %s: %s" % (type(x).__name__, str(x)[:200])
            if msg not in res["undecided"]:
                res["undecided"].append(msg)
            if os.environ.get("VC_TRACE"):
                traceback.print_exc()
        res["paths"] += 1
        for o in E.obls:
            res["obls"].append({"label": o.label, "status": o.status, "backend": o.backend, "time": round(o.time, 3),
                                "info": o.info, "exact": not E.inexact})
        for a in E.assumed:
            if a not in res["assumed"]:
                res["assumed"].append(a)
        while trail and not trail[-1][1]:
            trail.pop()
        if not trail:
            break
        trail[-1] = [not trail[-1][0], False]
        if res["paths"] >= u.limit:
            res["undecided"].append("path limit %d reached" % u.limit)
            break
        if time.time() - t0 > budget:
            res["undecided"].append("time budget %ds reached" % budget)
            break
    if not reached and not res["undecided"]:
        res["vacuous"] = "no path of the unit reaches its end with a satisfiable context"
    if not res["obls"] and not res["undecided"]:
        res["vacuous"] = "no obligation"
    res["used"] = sorted(prog.used)
    res["wall"] = round(time.time() - t0, 2)
    res["solver_s"] = round(sym.STATS["solver_s"] - st0["solver_s"], 2)
    res["queries"] = sym.STATS["queries"] - st0["queries"]
    return res


_PROG = None


def _work(a):
    i, budget = a
    try:
        return run_unit(_PROG, REG[i], budget)
    except BaseException as x:
        return dead_unit(REG[i], "engine crash: %r" % (x,))


def pool_run(todo, jobs, budget):
    """one forked process per unit; a unit whose process dies or hangs is undecided"""
    pending, running, res = list(todo), {}, {}
    with tempfile.TemporaryDirectory(prefix="vcu") as wd:
        while pending or running:
            while pending and len(running) < jobs:
                t = pending.pop(0)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        r = _work(t)
                        with open("%s/%d" % (wd, t[0]), "w") as f:
                            json.dump(r, f, default=str)
                    finally:
                        os._exit(0)
                running[pid] = (t, time.time())
            time.sleep(0.005)
            for pid in list(running):
                t, st = running[pid]
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    if time.time() - st > 2 * budget + 60:
                        os.kill(pid, 9)
                    continue
                del running[pid]
                try:
                    res[t[0]] = json.load(open("%s/%d" % (wd, t[0])))
                except Exception:
                    res[t[0]] = dead_unit(REG[t[0]], "verification process ended without a result")
    return [res[t[0]] for t in todo]


def dead_unit(u, why):
    return {"unit": u.name, "paths": 0, "ended": 0, "obls": [], "undecided": [why], "assumed": [], "vacuous": None,
            "functions": u.functions, "inputs": {}, "used": [], "wall": 0, "solver_s": 0, "queries": 0}


def load_contract(pid):
    REG.clear()
    return importlib.import_module("contracts." + pid)


def verify(mod, tier, jobs=8, only=None, keep=None):
    """-> dict with the unit results"""
    global _PROG
    import sym
    t0 = time.time()
    out = {"units": [], "errors": []}
    with tempfile.TemporaryDirectory(prefix="vcx") as wd:
        if os.environ.get("VC_JSONDIR"):
            wd = os.environ["VC_JSONDIR"]
            os.makedirs(wd, exist_ok=True)
        if os.environ.get("VC_REUSE"):
            outs, errs = [wd + "/x%d.json" % i for i in range(len(mod.TUS))], []
        else:
            outs, errs = extract(mod.TUS, wd)
        out["errors"] += errs
        prog = sym.Prog()
        for o in outs:
            prog.load(o)
    out["extract_s"] = round(time.time() - t0, 2)
    out["extracted_functions"] = len(prog.fn)
    _PROG = prog
    budget = getattr(mod, "BUDGET", 60) * (4 if tier == "thorough" else 1)
    todo = [(i, budget) for i, u in enumerate(REG) if only is None or only in u.name]
    if jobs <= 1 or len(todo) <= 1:
        rs = [_work(x) for x in todo]
    else:
        rs = pool_run(todo, jobs, budget)
    out["units"] = rs
    out["wall"] = round(time.time() - t0, 2)
    return out
