#!/usr/bin/env python3
"""writes MANIFEST.json from the plan"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(plan, "NOT_APPLICABLE", {})
checks = []
for p in props:
    i = p["id"]
    if i not in plan.P: continue
    checks.append(dict(property=i, quick_cmd="bin/check.py %s --tier quick" % i, thorough_cmd="bin/check.py %s --tier thorough" % i,
        technique=plan.TECH.get(i, "TLA+ specification; traces recorded from the code validated by TLC"), level="model_checking",
        level_note=plan.NOTE.get(i, "Every recorded request and every element of every result is checked by TLC against the TLA+ meaning; exhaustive only over what was recorded. Trusts TLC, the fixed-point arithmetic override, and the controlled StarPU replacement.")))
na = [dict(property=p["id"], reason=NA.get(p["id"], "not claimed yet: check under construction")) for p in props if p["id"] not in plan.P]
json.dump(dict(version=1, setup_cmd="bin/build.sh", checks=checks, not_applicable=na,
    notes="TLA+ specifications in spec/, checked with TLC; drivers in drivers/ and cxx/; plan of jobs in bin/plan.py. No hooks in /repo: observation is through the public API and a replacement of the StarPU library (shim/)."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
