#!/usr/bin/env python3
"""Writes MANIFEST.json: every rule module under sa/rules is a check, everything else is listed as not applicable."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = json.load(open(os.path.join(R, "tools", "not_applicable.json")))
INFO = json.load(open(os.path.join(R, "tools", "checks.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in INFO:
        checks.append({"property": i, "quick_cmd": f"python3 sa/check.py {i} --tier quick", "thorough_cmd": f"python3 sa/check.py {i} --tier thorough",
                       "technique": INFO[i]["technique"], "level": "other", "level_note": INFO[i]["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
