"""development: python3-vt engine/dev.py C01 [unit-substring]"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.run import load_contract, verify
mod = load_contract(sys.argv[1])
only = sys.argv[2] if len(sys.argv) > 2 else None
r = verify(mod, "quick", jobs=1 if only else 8, only=only)
if r["errors"]:
    print("EXTRACTION ERRORS", r["errors"])
for u in r["units"]:
    ok = sum(o["status"] == "proved" for o in u["obls"])
    bad = [o for o in u["obls"] if o["status"] != "proved"]
    print("%-60s paths %4d  obl %4d/%-4d  %.1fs%s%s" % (u["unit"], u["paths"], ok, len(u["obls"]), u["wall"],
          "  VACUOUS " + u["vacuous"] if u["vacuous"] else "", ""))
    seen = set()
    for o in bad:
        if o["label"] in seen:
            continue
        seen.add(o["label"])
        print("     %s: %s  %s" % (o["status"], o["label"], json.dumps(o["info"])[:700] if only else ""))
    for m in u["undecided"]:
        print("     undecided:", m[:300])
    if only:
        print("     used:", u["used"])
        print("     assumed:", u["assumed"])
print("extract %.1fs, wall %.1fs" % (r["extract_s"], r["wall"]))
