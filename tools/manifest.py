#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "mc", "checks", i.lower() + ".py")):
        na.append(dict(property=i, reason="the check is not built yet"))
        continue
    m = importlib.import_module("mc.checks." + i.lower())
    note = getattr(m, "NOTE", "Every case within the bounds reported in the evidence is executed on the real code "
                   "built from the working tree; nothing is sampled, nothing is claimed beyond the bounds.")
    if m.ASSUMPTIONS:
        note += " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."
    checks.append(dict(property=i, quick_cmd="./run %s quick" % i, thorough_cmd="./run %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=m.TECHNIQUE, level=m.LEVEL, level_note=note))
man = dict(
    version=1,
    setup_cmd="./run --selftest",
    checks=checks,
    not_applicable=na,
    notes="All checks run the real code; each run copies /repo/src/pykrige to a scratch directory (and compiles the "
    "extensions there if the property needs the C backend). See DESIGN.md.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
