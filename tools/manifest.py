#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and na.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402
from na import NA, HOOKS, NOTES  # noqa: E402

m = {"version": 1, "setup_cmd": "python3 run.py build"}
if HOOKS:
    m["hooks"] = HOOKS
m["checks"] = [{
    "property": c, "quick_cmd": "python3 run.py " + c, "thorough_cmd": "python3 run.py " + c,
    "evidence_file": "evidence/%s.json" % c, "technique": s["technique"], "level": s["level"], "level_note": s["level_note"],
} for c, s in sorted(CHECKS.items())]
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
m["not_applicable"] = [{"property": p, "reason": NA[p]} for p in props if p in NA and p not in CHECKS]
m["notes"] = NOTES
missing = [p for p in props if p not in CHECKS and p not in NA]
if missing:
    print("no check yet:", missing)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
