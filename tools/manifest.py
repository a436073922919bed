#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/table.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks"))
from table import CHECKS
NA = {}
try:
    from table import NOT_APPLICABLE as NA
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [], "not_applicable": [],
     "notes": "Every check builds its harness from /verif/harness next to /repo's working tree with a build overlay; "
              "no hooks in /repo are needed. Findings: known-findings.txt."}
for id in props:
    if id in CHECKS:
        k = CHECKS[id]
        m["checks"].append({"property": id, "quick_cmd": "bin/check %s quick" % id,
                            "thorough_cmd": "bin/check %s thorough" % id,
                            "evidence_file": "evidence/%s.json" % id, "technique": k["technique"],
                            "level": k["level"], "level_note": k["note"]})
    else:
        m["not_applicable"].append({"property": id, "reason": NA.get(id, "No check has been built for this property yet.")})
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
