#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, NOTES, NOT_APPLICABLE
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NOT_APPLICABLE or not PLAN(i, "quick")["tasks"]:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet: its slices of the specification are being written")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification explored by TLC, every behaviour and non-behaviour replayed on the real parser" + NOTES.get(i, ("", ""))[0],
        "level": "model_checking",
        "level_note": "Exhaustive over the slices and bounds listed in the evidence file (small-scope), random beyond; "
                      "trusts the specification (cross-checked against acorn) and the harness's tree comparison." + NOTES.get(i, ("", ""))[1],
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. No hooks in /repo: the public API's result is the observation. See DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
