#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and lib/checks.py."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
import checks
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "TLA+ (TLC) specifications under spec/, conformance drivers under harness/, runner run.py; see DESIGN.md. No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        tech, note = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "specification and conformance check not built yet")})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
