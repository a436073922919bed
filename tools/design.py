#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks")); sys.path.insert(0, os.path.join(H, "tools"))
from table import CHECKS
try:
    from table import NOT_APPLICABLE as NA
except ImportError:
    NA = {}
from design_notes import NOTES, COST, CAUGHT
known = [l.strip() for l in open(os.path.join(H, "known-findings.txt")) if l.strip() and l[0] != "#"]
bugs = {}
for m in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    d = json.load(open(m)); d["id"] = os.path.basename(os.path.dirname(m)); bugs.setdefault(d["property"], []).append(d)
out = [open(os.path.join(H, "tools/design.head.md")).read(), "## Properties\n"]
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); id = p["id"]
    out.append("### %s — %s\n" % (id, p["title"]))
    out.append(p["statement"] + "\n")
    if id not in CHECKS:
        out.append("*Not claimed*: " + NA.get(id, "No check has been built for this property yet.") + "\n"); continue
    k = CHECKS[id]
    out.append("* **Method**: %s (%s)." % (k["technique"], k["level"].replace("_", " ")))
    out.append("* **Quantified over**: %s." % p["quantifier"]["text"].rstrip("."))
    out.append("* **What is explored, oracle, bounds**: " + k["note"])
    out.append("* **Counting**: " + k["rule"])
    out.append("* **Why tests cannot**: " + p["why_tests_cant"])
    for a in k["assumptions"]:
        out.append("* **Assumes**: " + a)
    if id in COST:
        out.append("* **Cost**: quick about %d s with 8 cores (build included when cold: more); thorough up to its time limit." % COST[id])
    for n in NOTES.get(id, []):
        out.append("* " + n)
    for x in known:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
        if m and m.group(1) == id:
            out.append("* **Found and fixed** (`%s`): %s." % (m.group(2), m.group(3).rstrip(".")))
        m = re.match(r"finding: property=(\S+) sig=(.*?) -- (.*)", x)
        if m and m.group(1) == id:
            out.append("* **Known finding** (`%s`): %s." % (m.group(2), m.group(3).rstrip(".")))
    for b in bugs.get(id, []):
        out.append("* **Planted bug** `%s`: %s *Needs*: %s *Caught by*: %s." % (b["id"], b["what_it_breaks"], b["needs"], CAUGHT.get(b["id"], "not tried")))
    out.append("")
with open(os.path.join(H, "DESIGN.md"), "w") as f:
    f.write("\n".join(out).rstrip() + "\n")
