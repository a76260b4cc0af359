#!/usr/bin/env python3
"""MANIFEST.json from checks/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = registry.NOT_APPLICABLE
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [], "notes": registry.NOTES}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        s = registry.CHECKS[i]
        out["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 checks/run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                              "technique": s["technique"], "level": s.get("level", "other"), "level_note": s["explanation"]})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "not decided yet: no sound static rule has been built for it in this tree so far")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")
