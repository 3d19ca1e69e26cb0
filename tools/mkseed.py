"""mkseed.py SPEC.py : write /verif/seeded/<id>/ from SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)]"""
import json, os, subprocess, sys, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEMO_SH = '''#!/bin/bash
# compiles demo.cpp against /repo and its built library; 0 = the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
L=$(ls /repo/_build/src/libTVM*.so | head -1)
g++ -std=c++17 -O0 -w -I/repo/_build -I/repo/_build/include -I/repo/include -I/repo/src -I/repo/3rd-party -isystem /usr/include/eigen3 \\
  "$D/demo.cpp" -o $W/demo "$L" -Wl,-rpath,/repo/_build/src -lpthread || { rm -rf "$W"; exit 4; }
timeout 60 $W/demo; R=$?
rm -rf "$W"
exit $R
'''
for s in ns["SEEDS"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    out = ""
    files = []
    for f, _, _ in s["edits"]:
        if f not in files: files.append(f)
    for f in files:
        t = open("/repo/" + f).read(); o = t
        for ff, a, b in s["edits"]:
            if ff == f:
                assert t.count(a) == 1, (s["id"], f, t.count(a), a)
                t = t.replace(a, b)
        os.makedirs(w + "/a/" + os.path.dirname(f), exist_ok=True); os.makedirs(w + "/b/" + os.path.dirname(f), exist_ok=True)
        open(w + "/a/" + f, "w").write(o); open(w + "/b/" + f, "w").write(t)
    out = subprocess.run(["diff", "-ru", "a", "b"], cwd=w, capture_output=True, text=True).stdout
    out = "\n".join(l for l in out.split("\n") if not l.startswith("diff -ru"))
    out = "\n".join((l.split("\t")[0] if l.startswith("--- ") or l.startswith("+++ ") else l) for l in out.split("\n"))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print(s["id"])
