"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import plan  # noqa: E402

PYTHON = "/opt/venv/bin/python"
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in plan.NOT_APPLICABLE:
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"{PYTHON} check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough {PYTHON} check.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": plan.technique(pid),
        "level": plan.level(pid),
        "level_note": plan.note(pid),
    })
manifest = {
    "version": 1,
    "setup_cmd": f"{PYTHON} tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in plan.NOT_APPLICABLE.items()],
    "notes": "No hooks in /repo: contracts live in /verif/contracts and are attached to the functions read from /repo's"
             " source on every run. Known findings: KNOWN_FINDINGS.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
