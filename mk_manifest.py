#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and mc/harness.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
har = json.load(open(os.path.join(H, "mc", "harness.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in har:
        na.append({"property": i, "reason": "no check yet: the exploration harness for it is still being built (see DESIGN.md for the plan)"})
        continue
    h = har[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py check %s quick" % i,
        "thorough_cmd": "python3 run.py check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": h.get("technique", "explicit-state stateless model checking of the real code: exhaustive bounded enumeration of executions against a reference model"),
        "level": "model_checking",
        "level_note": h.get("level_note", "Every execution within the stated bounds is run on the real compiled code (ASAN+UBSAN) and compared with an independent reference; nothing is claimed beyond the bounds. Trusts: the reference, the compiler, protobuf.") ,
    })
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: the code is driven through its public headers and the codec entry points."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
