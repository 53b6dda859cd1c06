#!/usr/bin/env python3
"""Writes MANIFEST.json from the CHECKS registered in sa/rules_*.py and the notes below."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, os.path.join(HERE, "tools"))
import notes  # noqa: E402
sys.path.insert(0, HERE)
check = importlib.import_module("check")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = check.find(i)
    if c is None:
        na.append({"property": i, "reason": notes.NA.get(i, "no check built yet")})
        continue
    cmd = "python3 check.py " + i
    tech, note = notes.TECH[i]
    checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % i,
                   "technique": tech, "level": c[1], "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'sa'); import ir; ir.load()\"",
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable:", " ".join(x["property"] for x in na))
