#!/usr/bin/env python3
"""Driver: decide one property from the current source of the repository.

usage: check.py <property id> [--tier quick|thorough] [--repo DIR]
exit 0: no violation; 1: violation(s), each with a VIOLATION line; 2: the analysis found nothing to decide on.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VSS_REPO", "/repo"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from report import Report
    r = Report(a.prop, a.tier, a.repo)
    try:
        mod = importlib.import_module("rules." + a.prop.lower())
        mod.check(r)
    except Exception:
        r.broken(traceback.format_exc())
    known = load_known(a.prop)
    new, listed = [], []
    for f in r.violations():
        (listed if f["key"] in known else new).append(f)
    write_evidence(r, new, listed, time.time() - t0)
    for f in listed:
        print(f"KNOWN-FINDING: property={a.prop} {f['key']}: {f['msg']}")
    rp = None
    if new:
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, a.prop + ".json")
        with open(rp, "w") as fh:
            json.dump({"property": a.prop, "repo": a.repo, "command": f"python3 {HERE}/check.py {a.prop}", "violations": new}, fh, indent=1)
        for f in new:
            print(f"{f['loc']}: [{f['clause']}] {f['msg']}  (key {f['key']})")
        print(f"VIOLATION property={a.prop} replay={rp}")
    n = r.counts()
    print(f"{a.prop}: {n['obligations']} obligations, {n['ok']} hold, {n['bad']} violated, {n['undecided']} undecided, "
          f"{len(r.units)} functions analysed, {time.time() - t0:.1f}s")
    if a.v:
        for k, v in sorted(r.by_clause().items()):
            print("   ", k, v)
        for u in r.recs:
            if u["st"] == "undecided":
                print("    undecided:", u["clause"], u["key"], u["msg"][:200])
        for u in r.notes:
            print("    note:", u[:300])
    if new:
        return 1
    if r.low:
        # nothing was found wrong in what could be decided; the evidence names what could not
        print(("LOW COVERAGE: " if n["ok"] + n["bad"] else "NOTHING DECIDED: ") + "; ".join(r.low)[:1500])
    if r.errors:
        print("BROKEN ANALYSIS:\n" + "\n".join(r.errors)[:3000], file=sys.stderr)
        return 2
    return 0


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return set()
    with open(p) as f:
        d = json.load(f)
    return {e["key"] for e in d.get("findings", []) if e["property"] == prop}


def write_evidence(r, new, listed, wall):
    n = r.counts()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {
        "property": r.prop, "tier": r.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": r.explain(),
            "technique": "abstract interpretation / dataflow over the current source tree; nothing of the code under test is executed",
            "obligations": n["obligations"], "discharged": n["ok"], "violated": n["bad"], "undecided": n["undecided"],
            "by_clause": r.by_clause(),
            "functions_analysed": sorted(r.units),
            "paths": r.paths,
            "known_findings_seen": [f["key"] for f in listed],
            "new_violations": [f["key"] for f in new],
            "undecided_items": [{"clause": u["clause"], "key": u["key"], "msg": u["msg"][:300]} for u in r.recs if u["st"] == "undecided"][:60],
            "hold_items": [{"clause": u["clause"], "key": u["key"], "loc": u["loc"]} for u in r.recs if u["st"] == "ok"][:400],
            "low_coverage": r.low, "notes": r.notes[:40],
        },
        "wall_s": round(wall, 2),
    }
    with open(os.path.join(ROOT, "evidence", r.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
