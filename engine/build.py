"""Compilation of /repo's current sources and of the replay drivers."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from engine.run import HERE, VERIF, REPO

CXX = "clang++"
FLAGS = ["-std=c++17", "-O0", "-w", "-fno-access-control", "-fbracket-depth=1024", "-I" + REPO + "/include",
         "-I" + HERE + "/shim", "-I" + REPO + "/3rd-party", "-I" + REPO + "/src", "-I" + VERIF + "/replay",
         "-isystem", "/usr/include/eigen3"]


def repo_sources():
    """the library sources of the offline configuration, as listed by the project's own build file"""
    cm = open(REPO + "/src/CMakeLists.txt").read()
    m = re.search(r"set\(TVM_SOURCES(.*?)\)", cm, re.S)
    src = [s for s in m.group(1).split() if s.endswith(".cpp") and "defaultLeastSquareSolver" not in s]
    return [s for s in src if os.path.exists(REPO + "/src/" + s)]


def compile1(src, obj, flags, extra=()):
    p = subprocess.run([CXX] + FLAGS + list(flags) + list(extra) + ["-c", src, "-o", obj], capture_output=True, text=True)
    return p.returncode == 0, p.stderr


def build_lib(wd, sources=None, flags=(), ngroups=6, pool=None):
    """objects of the library, as a few unity translation units (each file alone if a unity unit does not compile)"""
    src = repo_sources() if sources is None else [s for s in repo_sources() if s in sources]
    alone = [s for s in src if s in ("scheme/Assignment.cpp",)]
    rest = [s for s in src if s not in alone]
    n = max(1, min(ngroups, (len(rest) + 3) // 4))
    groups = [[s] for s in alone] + [rest[i::n] for i in range(n) if rest[i::n]]
    objs, errs = [], []

    def one(a):
        i, g = a
        u, o = "%s/u%d.cpp" % (wd, i), "%s/u%d.o" % (wd, i)
        with open(u, "w") as f:
            f.write("".join('#include "%s/src/%s"\n' % (REPO, s) for s in g))
        ok, err = compile1(u, o, flags)
        if ok:
            return [o], []
        os_, es = [], []
        for j, s in enumerate(g):
            oo = "%s/u%d_%d.o" % (wd, i, j)
            ok, err = compile1(REPO + "/src/" + s, oo, flags)
            if ok:
                os_.append(oo)
            else:
                es.append("%s: %s" % (s, err[:500]))
        return os_, es
    with ThreadPoolExecutor(8) as ex:
        for o, e in ex.map(one, list(enumerate(groups))):
            objs += o
            errs += e
    return objs, errs


def build_driver(wd, driver, sources=None, flags=()):
    """-> (path or None, error text)"""
    drv = VERIF + "/replay/" + driver
    dobj = wd + "/driver.o"
    with ThreadPoolExecutor(2) as ex:
        fd = ex.submit(compile1, drv, dobj, flags)
        fl = ex.submit(build_lib, wd, sources, flags)
        okd, errd = fd.result()
        objs, errs = fl.result()
    if not okd:
        return None, "driver does not compile: " + errd[:1500]
    out = wd + "/driver"
    p = subprocess.run([CXX] + list(flags) + [dobj] + objs + ["-o", out, "-lpthread"], capture_output=True, text=True)
    if p.returncode != 0:
        return None, "driver does not link: %s %s" % (errs, p.stderr[:1500])
    return out, None
