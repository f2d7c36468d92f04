#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = {}
LEVEL = {}
NOTE = ("TLC generates calls from the TLA+ specification (boundary, small-field exhaustive and seeded random operands), the real code "
        "executes them, and TLC checks every recorded result against the specification; a wrong result on an explored call is always "
        "reported. Assumes TLC, its arbitrary-precision overrides (compared with their TLA+ definitions) and the call interpreter are right.")
TECH = "explicit TLA+ specification checked with TLC; spec-generated programs replayed into the code, recorded traces validated against the spec"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PENDING:
        na.append({"property": p, "reason": PENDING[p]})
        continue
    checks.append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking",
                   "level_note": LEVEL.get(p, NOTE)})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ (spec/), TLC; no hooks in /repo; see DESIGN.md"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
