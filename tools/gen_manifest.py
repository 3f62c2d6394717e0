#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import importlib.util, json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
        tech, note = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "/opt/venv/bin/python -B run.py %s" % pid,
            "thorough_cmd": "/opt/venv/bin/python -B run.py %s --tier thorough" % pid,
            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the public API of the working tree. run.py --replay FILE repeats a reported case; see DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
