#!/usr/bin/env python3
"""Regenerates MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in registry.REG:
        c = registry.get(p)
        checks.append(dict(property=p, quick_cmd="python3 run.py %s" % p,
                           thorough_cmd="python3 run.py %s --tier thorough" % p,
                           technique=c.technique, level=c.level, level_note=c.level_note))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
