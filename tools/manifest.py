#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl (run after changing either)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, ROOT + "/tools")
import plan, props
with open(ROOT + "/properties.jsonl", "w") as f:
    for x in props.P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
ids = [x["id"] for x in props.P]
checks = []
for i in ids:
    if i not in plan.CHECKS: continue
    c = plan.CHECKS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
      "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "model_checking",
      "level_note": ("Every case within the stated bounds is executed on the real code compiled from the working tree and compared with an independent reference; "
        "nothing is claimed outside the bounds. Bounds: " + c["bounds"] + ((". " + c["note"]) if c["note"] else "") + ". Trusts the reference in the harness, the compiler and the standard library.")})
m = {"version": 1, "setup_cmd": "python3 -B tools/setup.py",
  "hooks": {"guard": "none", "enable": "no hooks: the checks use the documented Settings override points (RandomEngine, exitVerdict) and macros only", "source_commits": []},
  "checks": checks,
  "not_applicable": [{"property": i, "reason": plan.NOT_CLAIMED.get(i, "harness not built yet")} for i in ids if i not in plan.CHECKS],
  "notes": "see DESIGN.md"}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
