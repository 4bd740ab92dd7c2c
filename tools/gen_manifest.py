#!/usr/bin/env python3
"""MANIFEST.json from the table of checks (run after adding checks/cXX.py)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "tools", "manifest_table.py")).read(), ns)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        t, note = ns["CHECKS"][p]
        checks.append(dict(property=p, quick_cmd="python3 checks/run.py " + p, thorough_cmd="python3 checks/run.py %s thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=t, level="other", level_note=note))
    else: na.append(dict(property=p, reason=ns["NA"].get(p, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 engine/prebuild.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
