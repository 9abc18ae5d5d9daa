#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py (run after every change of the set of checks)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 run_check.py {i}", thorough_cmd=f"python3 run_check.py {i} --thorough",
                       technique=c["technique"], level="model_checking", level_note=c["note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check compiles the unmodified sources of /repo's working tree together with a harness from /verif/harness.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
