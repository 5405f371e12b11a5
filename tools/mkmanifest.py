#!/usr/bin/env python3
"""Writes MANIFEST.json from check.MODULES."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = check.NOTES
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.MODULES:
        t, n = NOTE.get(i, NOTE["*"])
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check under construction"})
doc = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
       "notes": "Specifications in spec/ (TLA+, TLC); drivers in go/zz_verif, built from /repo's working tree with go build -overlay; no hooks in /repo."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
