#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules import RULES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in RULES:
        r = RULES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": r["technique"],
            "level": "exploration",
            "level_note": r["note"],
        })
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors drive the public API of the crate only. Commits in /repo are repairs of genuine defects (fix:), listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
