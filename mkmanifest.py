#!/usr/bin/env python3
"""Write MANIFEST.json from plan.py."""
import json, os
from plan import PLAN, VERIF
checks = []
for pid in sorted(PLAN):
    p = PLAN[pid]
    checks.append({"property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": "model checking: " + p["technique"],
                   "level": p["level"], "level_note": p["note"] + " Bounds (quick): " + p["bounds"]["quick"] + ". Trusted: " + ("; ".join(p["assumptions"]) or "the Go toolchain") + "."})
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
na = [{"property": i, "reason": "not yet built: the check is under construction"} for i in ids if i not in PLAN]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hooks in /repo: the checks build /repo's working tree as it is. The controlled scheduler is a build overlay of the Go runtime under mc/overlay.", "source_commits": []},
     "notes": "See DESIGN.md. known-findings.txt lists the defects found; the commits in /repo are all repairs (fix:)."}
open(os.path.join(VERIF, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
