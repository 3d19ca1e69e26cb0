#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/*.py and tools/na.json"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/notes.json"))
na = json.load(open(V + "/tools/na.json"))
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(V + "/contracts/%s.py" % i) and i not in na:
        n = notes.get(i, {})
        m["checks"].append({
            "property": i, "quick_cmd": "/verif/check.py %s --tier quick" % i,
            "thorough_cmd": "/verif/check.py %s --tier thorough" % i,
            "technique": n.get("technique", "contract-based deductive verification: verification conditions generated from the bodies "
                               "extracted from /repo on every run, discharged by z3/cvc5; failed obligations replayed on the real code"),
            "level": n.get("level", "proof"), "level_note": n.get("note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check yet")})
m["notes"] = "see DESIGN.md"
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
