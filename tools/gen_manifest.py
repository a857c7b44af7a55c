#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os

top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(x) for x in open(os.path.join(top, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(top, "psim", "checks", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": "./check %s --tier quick" % i,
                "thorough_cmd": "./check %s --tier thorough" % i,
                "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real client against a model server",
                "level": "exploration",
                "level_note": "seeded random scenarios; the counts, faults and situations reached are in evidence/%s.json, the oracle in DESIGN.md" % i,
            }
        )
    else:
        na.append({"property": i, "reason": "the check is still being built; nothing decides this property yet"})
doc = {
    "version": 1,
    "setup_cmd": "./check --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "Pure Python: nothing is compiled. Every check imports pypsrp from /repo/src at run time. No hooks were added to /repo; all seams are existing module boundaries (urllib3, time, os).",
}
json.dump(doc, open(os.path.join(top, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
