#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import plan
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in plan.PLAN:
        continue
    n = NOTES[p]
    checks.append(dict(property=p, quick_cmd="bin/check %s --tier quick" % p, thorough_cmd="bin/check %s --tier thorough" % p,
                       technique=n["technique"], level=plan.LEVEL.get(p, "model_checking"), level_note=n["note"]))
m = dict(version=1, setup_cmd="bin/setup", checks=checks,
         not_applicable=[dict(property=p, reason="check under construction") for p in props if p not in plan.PLAN],
         notes="All checks: TLA+ specifications under spec/ checked and enumerated by TLC, bound to the code by replay (driver under harness/, "
               "built against /repo's working tree on every run) and by trace validation. No hooks in /repo: the scheduler of the M04 check and its "
               "yield points are added by a build overlay generated from the current sources.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
