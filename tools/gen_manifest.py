#!/usr/bin/env python3
"""Writes MANIFEST.json from the check registry and properties.jsonl."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True
from vf import plans

props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
checks = []
for p in props:
    if p["id"] not in plans.CHECKS:
        continue
    s = plans.CHECKS[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']}",
        "thorough_cmd": f"python3 run.py {p['id']} --thorough",
        "technique": "runtime monitoring: " + s.technique,
        "level": "exploration",
        "level_note": s.note,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: all monitors observe the models through their public API, the bus signals and wrapped objects.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", [p["id"] for p in props if p["id"] not in plans.CHECKS], "unclaimed")
