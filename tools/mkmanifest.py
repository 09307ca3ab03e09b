#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry of built checks."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, n = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i, "technique": t, "level": "exploration", "level_note": n, "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo/include as it is. Genuine defects were repaired by fix: commits in /repo (listed in known_findings.json)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
