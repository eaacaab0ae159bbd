#!/usr/bin/env python3
"""MANIFEST.json from the registry of rules and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/engine", HERE + "/rules"]
import registry
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
NA = json.load(open(HERE + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.RULES:
        c = "python3 check.py " + i
        checks.append({"property": i, "quick_cmd": c, "thorough_cmd": c, "evidence_file": "evidence/%s.json" % i,
                       "technique": registry.TECHNIQUE.get(i, registry.TECHNIQUE["*"]), "level": "other",
                       "level_note": registry.NOTE.get(i, registry.NOTE["*"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "no rule built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py SETUP", "checks": checks, "not_applicable": na}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
