#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    if p in registry.RUN:
        checks.append(dict(property=p, quick_cmd="python3 bin/check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + p,
                           technique=registry.TECH[p], level=registry.LEVEL[p], level_note=registry.NOTE[p]))
    else:
        na.append(dict(property=p, reason=registry.WHY_NOT.get(p, "check under construction")))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, judged and explored by TLC; drivers in harness/ link /repo/src unmodified, so no hooks are needed in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
