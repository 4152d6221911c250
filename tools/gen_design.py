#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the property and check tables, the findings and the planted changes."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda p: json.load(open(os.path.join(R, p)))
T = lambda p: open(os.path.join(R, p)).read().rstrip() + "\n"
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
info, na, kf, cost = J("tools/checks.json"), J("tools/not_applicable.json"), J("known_findings.json"), J("tools/design_info.json")
out = [T("tools/design_head.md"), "\n## Properties\n\n"]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n")
    if i not in info:
        out.append(f"Not applicable: {na[i]}\n\n")
        continue
    out.append(f"* **Method:** {info[i]['technique']}.\n")
    d = cost[i]
    out.append(f"* **Decided:** {d['what']}\n* **Oracle:** {d['oracle']}\n* **Bounds:** {info[i]['note'].rstrip('.')}. About {d['obligations']} obligations, {d['seconds']} s (8 cores).\n")
    out.append(f"* **Beyond the tests:** {p['why_tests_cant']}\n\n")
out.append("## Findings in the repository\n\nRepaired (one `fix:` commit each; `known_findings.json` lists the same):\n\n")
for f in kf["fixed"]:
    out.append("* " + f[len("fixed: property="):] + "\n")
out.append("\nRecorded, not repaired:\n\n")
for f in kf["findings"]:
    out.append(f"* {f['property']} `{f['key']}`: {f['msg']}\n")
out.append("\n" + T("tools/design_tail.md"))
out.append("\n## Planted changes\n\nEach is in `seeded/<id>` with a demonstration.\n\n| change | needs | caught by |\n|---|---|---|\n")
seen = J("tools/seed_results.json")
for f in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    d, n = json.load(open(f)), f.split("/")[-2]
    out.append(f"| {n} | {d['needs']} | {seen.get(n, 'not run')} |\n")
open(os.path.join(R, "DESIGN.md"), "w").write("".join(out))
