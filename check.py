#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> --tier quick|thorough : decide one property on /repo's current tree.

1. extract the real bodies from /repo (engine/extract.cpp), generate and discharge the obligations of contracts/<id>.py
2. compile replay/<id>.cpp against /repo's sources and run it: it replays failed obligations on the real code (search of
   a concrete failing input) and stands in, bounded, for the functions the verifier does not reach
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, VERIF + "/engine")


def run_driver(mod, tier, seed, wd, seconds=None):
    r = {"built": False, "fails": [], "explored": 0, "sections": {}, "error": None, "wall": 0.0, "log": ""}
    t0 = time.time()
    try:
        from engine.build import build_driver
        exe, err = build_driver(wd, mod.DRIVER, getattr(mod, "SOURCES", None), getattr(mod, "DRIVER_FLAGS", ()))
        if exe is None:
            r["error"] = err
            return r
        r["built"] = True
        r["build_s"] = round(time.time() - t0, 1)
        budget = getattr(mod, "DRIVER_S", 12) if tier == "quick" else getattr(mod, "DRIVER_S_THOROUGH", 240)
        budget = seconds or budget
        t1 = time.time()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1",
                   UBSAN_OPTIONS="halt_on_error=0")
        out = open(wd + "/driver.out", "w+")
        p = subprocess.Popen([exe, tier, str(seed), str(budget)], stdout=out, stderr=subprocess.STDOUT, cwd=wd, env=env)
        try:
            rc = p.wait(timeout=budget + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        out.seek(0)
        txt = out.read(4000000)
        r["log"] = txt[-3000:]
        for l in txt.splitlines():
            if l.startswith("FAIL "):
                k, _, w = l[5:].partition(" | ")
                r["fails"].append((k.strip(), w))
            elif l.startswith("EXPLORED "):
                r["explored"] = int(l.split()[1])
            elif l.startswith("SECTION "):
                n, c = l[8:].rsplit(" ", 1)
                r["sections"][n] = int(c)
        if rc is None:
            r["error"] = "driver timed out"
        elif rc not in (0, 1):
            r["fails"].append(("crash", "driver ended with %s: %s" % (rc, txt[-1500:].replace("\n", " / "))))
        r["run_s"] = round(time.time() - t1, 1)
    except Exception as x:
        r["error"] = "driver: %r" % (x,)
    r["wall"] = round(time.time() - t0, 1)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--driver", default=None, help="internal: build and run the driver only, result as JSON in this folder")
    a = ap.parse_args()
    pid, tier = a.property, ("thorough" if a.tier == "thorough" else "quick")
    t0 = time.time()
    from engine import run
    mod = run.load_contract(pid)
    if a.driver:
        json.dump(run_driver(mod, tier, a.seed, a.driver), open(a.driver + "/result.json", "w"))
        return
    known = [k for k in json.load(open(VERIF + "/known_findings.json"))["findings"] if k.get("property") == pid and
             k.get("status") == "known"]

    with tempfile.TemporaryDirectory(prefix="vp" + pid) as wd:
        fut = None
        if getattr(mod, "DRIVER", None):
            os.makedirs(wd + "/d")
            fut = subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, "--tier", tier, "--seed", str(a.seed),
                                    "--driver", wd + "/d"])
        ded = {"units": [], "errors": [], "extract_s": 0, "extracted_functions": 0}
        if getattr(mod, "TUS", None) and run.REG:
            try:
                ded = run.verify(mod, tier, jobs=8)
            except Exception as x:
                ded["errors"].append("verification: %r" % (x,))
        drv = None
        if fut:
            fut.wait()
            try:
                drv = json.load(open(wd + "/d/result.json"))
            except Exception:
                drv = {"built": False, "fails": [], "explored": 0, "sections": {}, "error": "driver stage ended without a result",
                       "wall": 0, "log": ""}

    # ---- aggregate the obligations
    obl, undecided, failed, assumed, vacuous = {}, [], [], [], []
    for u in ded["units"]:
        if u["vacuous"]:
            vacuous.append("%s: %s" % (u["unit"], u["vacuous"]))
        for m in u["undecided"]:
            undecided.append("%s: %s" % (u["unit"], m))
        for x in u["assumed"]:
            if x not in assumed:
                assumed.append(x)
        for o in u["obls"]:
            k = u["unit"] + " / " + o["label"]
            e = obl.setdefault(k, {"n": 0, "proved": 0, "backends": {}, "failed": None, "unknown": 0, "time": 0.0})
            e["n"] += 1
            e["time"] += o["time"]
            if o["status"] == "proved":
                e["proved"] += 1
                e["backends"][o["backend"]] = e["backends"].get(o["backend"], 0) + 1
            elif o["status"] == "failed":
                e["failed"] = e["failed"] or {"info": o["info"], "backend": o["backend"], "exact": o["exact"]}
            else:
                e["unknown"] += 1
    for k, e in obl.items():
        if e["failed"]:
            failed.append(k)
        elif e["unknown"]:
            undecided.append(k + ": solver returned unknown")
    total = sum(e["n"] for e in obl.values())
    discharged = sum(e["proved"] for e in obl.values())

    lines, viol, kf = [], [], []
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)

    def report(kind, what, data, nofail):
        rp = VERIF + "/evidence/replay/%s-%d.json" % (pid, len(viol) + 1)
        json.dump({"property": pid, "kind": kind, "what": what, "data": data,
                   "rerun": "%s/check.py %s --tier %s --seed %d" % (VERIF, pid, tier, a.seed)}, open(rp, "w"), indent=1,
                  default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, rp, " no-failing-input-found" if nofail else ""))
        lines.append("  " + what[:600])
        viol.append({"kind": kind, "what": what[:2000], "replay": rp, "failing_input": not nofail})

    concrete = []
    if drv:
        for k, w in drv["fails"]:
            m = [f for f in known if f["key"] == k and (not f.get("match") or f["match"] in w)]
            if m:
                l = "KNOWN-FINDING: property=%s %s" % (pid, m[0]["what"])
                if l not in kf:
                    kf.append(l)
            else:
                concrete.append((k, w))
    real_failed = [k for k in failed if not any(f.get("obligation") == k for f in known)]
    for k in failed:
        for f in known:
            if f.get("obligation") == k:
                l = "KNOWN-FINDING: property=%s %s" % (pid, f["what"])
                if l not in kf:
                    kf.append(l)
    if real_failed and not concrete and drv and drv["built"] and not drv["error"]:
        # an obligation fails: search longer for a failing input on the real code
        with tempfile.TemporaryDirectory(prefix="vp" + pid) as wd:
            d2 = run_driver(mod, "thorough", a.seed + 1000, wd, 90)
        concrete = [(k, w) for k, w in d2["fails"] if not any(
            f["key"] == k and (not f.get("match") or f["match"] in w) for f in known)]
        drv["explored"] += d2["explored"]
        drv["log"] += d2["log"]
    seen = set()
    for k, w in concrete:
        if k in seen:
            continue
        seen.add(k)
        report("failing input on the real code", "%s: %s" % (k, w),
               {"failed_obligations": [{"obligation": q, "detail": obl[q]["failed"]} for q in real_failed],
                "driver_log": drv["log"]}, False)
    if real_failed and not concrete:
        report("failed obligation", "; ".join(real_failed[:6]),
               [{"obligation": q, "detail": obl[q]["failed"]} for q in real_failed], True)

    wall = round(time.time() - t0, 1)
    used = sorted(set(f for u in ded["units"] for f in u["used"]))
    ev = {
        "property": pid, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": total, "discharged": discharged,
            "checker_cmd": "%s/check.py %s --tier %s" % (VERIF, pid, tier),
            "trusted_base": ["clang 18 front end (AST of the extracted bodies)",
                             "engine/extract.cpp (mechanical JSON dump of the AST), engine/*.py (VC generator)",
                             "z3 4.8 / cvc5 1.1"] + getattr(mod, "TRUSTED", []),
            "units": len(ded["units"]),
            "functions_under_contract": sorted(set(f for u in ded["units"] for f in u["functions"])),
            "bodies_executed": used,
            "distinct_obligations": len(obl),
            "paths": sum(u["paths"] for u in ded["units"]),
            "backends": _sum([e["backends"] for e in obl.values()]),
            "solver_s": round(sum(u["solver_s"] for u in ded["units"]), 2),
            "solver_queries": sum(u["queries"] for u in ded["units"]),
            "failed_obligations": failed, "undecided": undecided + ded["errors"], "vacuous_units": vacuous,
            "extracted_functions": ded["extracted_functions"], "extract_s": ded["extract_s"],
            "bounded": None if drv is None else {
                "label": "bounded (not counted as proved)", "what": getattr(mod, "BOUNDED", ""),
                "cases": drv["explored"], "sections": drv["sections"], "error": drv["error"],
                "wall_s": drv["wall"]},
            "known_findings": kf, "violation_details": viol,
            "explanation": getattr(mod, "EXPLANATION", ""),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + BASE_ASSUMPTIONS + ["engine: " + x for x in assumed],
        "wall_s": wall, "violations": len(viol),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1, default=str)
    print("%s %s: %d/%d obligations discharged (%d units, %d paths), bounded cases %s, %.1fs" % (
        pid, tier, discharged, total, len(ded["units"]), ev["coverage"]["paths"],
        drv["explored"] if drv else "-", wall))
    for m in undecided + ded["errors"]:
        print("  undecided: " + m[:300])
    for m in vacuous:
        print("  vacuous: " + m[:300])
    if drv and drv["error"]:
        print("  bounded check unavailable: " + drv["error"][:800])
    for l in kf + lines:
        print(l)
    sys.stdout.flush()
    sys.exit(1 if viol else 0)


BASE_ASSUMPTIONS = [
    "machine integers are treated as mathematical integers (no overflow)",
    "floating point numbers are treated as real numbers",
    "the models of std::, mpark::variant and Eigen in engine/lib.py and engine/eigen.py (assumed contracts on dependencies)",
    "no aliasing of distinct by-value objects; text output (streams, exception messages) is not modelled",
    "allocation does not fail; destructors have no effect on the modelled state unless a contract says so",
]


def _sum(ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = r.get(k, 0) + v
    return r


if __name__ == "__main__":
    main()
