#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import run  # noqa: E402

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "pbt", "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check yet"})
        continue
    p = run.load_prop(pid)
    checks.append({
        "property": pid,
        "quick_cmd": "./run.py check " + pid,
        "thorough_cmd": "./run.py check {} --tier thorough".format(pid),
        "evidence_file": "evidence/{}.json".format(pid),
        "technique": "property-based testing (Hypothesis generators, shrinking): " + p.oracle,
        "level": "exploration",
        "level_note": "Generated-input search ({} cases quick, {} thorough), no proof of absence. {}".format(
            p.quick, p.thorough, p.note).strip(),
    })
m = {"version": 1, "setup_cmd": "./run.py selftest", "checks": checks, "not_applicable": na,
     "notes": "The checks import /repo/src directly (pure Python, nothing to build); no hooks in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
