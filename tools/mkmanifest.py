#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s" % i, "thorough_cmd": "python3 run.py check %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules, stale reads and "
                                    "faults, checked against " + CHECKS[i]["oracle"],
                       "level": "exploration", "level_note": CHECKS[i].get("note", "Seeded sampling of schedules, workloads and faults: a clean run is evidence, not proof.")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py build tree", "checks": checks}
if na:
    m["not_applicable"] = na
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
