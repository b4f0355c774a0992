#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "verif", "enable": "no change of /repo is needed: the checks build /repo's working tree with -overlay (instrumented copies are generated at check time by mc/cmd/mcgen)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
