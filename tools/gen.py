#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from catalogue import CLAIMED, LATER, NA, PROPS  # noqa: E402

VERIF = os.path.dirname(HERE)
with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        q = dict(p)
        fh.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    pid = p["id"]
    if pid in CLAIMED:
        tech, note = CLAIMED[pid]
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
                       "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": "other", "level_note": note})
na = [{"property": p["id"], "reason": NA.get(p["id"], LATER)} for p in PROPS if p["id"] not in CLAIMED]
m = {"version": 1, "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 12)\"", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they parse /repo's working tree on every run and never import or execute it. VERIF_REPO=<dir> analyses another checkout (used for experiments only)."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(PROPS), "properties,", len(checks), "claimed")
