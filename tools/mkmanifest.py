#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        c = plan.PLAN[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": c.get("technique", "property-based testing: generated inputs against an explicit oracle"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("note", "Searched, not proved: no failure among the generated cases reported in the evidence file. "
                                "Trusts the harness's own encoder, models and reference decoder (written from the FLAC format "
                                "specification, cross-checked against the reference flac tool)."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "One Rust harness (harness/) with a choice-sequence property-testing engine; every check builds it from /repo's working tree in two profiles (checked: overflow checks, debug assertions and std's unsafe-precondition checks on; release: as users run it). No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
