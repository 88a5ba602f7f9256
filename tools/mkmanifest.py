"""Writes MANIFEST.json from the check modules that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.notes import NOTES, PENDING  # noqa: E402

props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", pid + ".py")) and pid in NOTES:
        technique, level, note = NOTES[pid]
        checks.append({
            "property": pid, "quick_cmd": f"./run.sh {pid} quick", "thorough_cmd": f"./run.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json", "technique": technique, "level": level, "level_note": note,
        })
    else:
        na.append({"property": pid, "reason": PENDING.get(pid, "check under construction")})
json.dump({
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "hooks": {"guard": "none", "enable": "no hooks: the checks drive the unmodified package", "source_commits": []},
    "notes": "Every check is an exhaustive enumeration of a bounded space executed on the real code; see DESIGN.md.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
