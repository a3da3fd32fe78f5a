#!/opt/venv/bin/python
"""Write MANIFEST.json from the check modules."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks"), "/repo"]
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        m = importlib.import_module(pid.lower())
        checks.append({"property": pid, "quick_cmd": "./check " + pid,
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + pid,
                       "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
    else:
        na.append({"property": pid, "reason": "no check yet"})
json.dump({"version": 1,
           "setup_cmd": "./check --build",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the code is monitored from outside (LD_PRELOAD interposer, lib/vmon/interpose.c). "
                    "Replay a violation with ./check <id> --replay <path>."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
