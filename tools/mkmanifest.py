#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append(dict(property=i, reason="Specification module not written yet."))
        continue
    pl = PLAN[i]
    checks.append(dict(
        property=i,
        quick_cmd="./check %s quick" % i,
        thorough_cmd="./check %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=pl.get("technique", "TLA+ specification explored by TLC; its behaviours replayed into the code, recorded histories of the code checked against it"),
        level="model_checking",
        level_note=pl.get("note", "Exhaustive on the specification within the stated bounds; the code is bound to it by replayed behaviours and by recorded histories, which sample longer inputs.")))
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
         notes="Specification in spec/ (TLA+, TLC). See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
