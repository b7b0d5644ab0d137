"""Writes MANIFEST.json for the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B run.py"
NOTES = {
    "C01": "frames up to 66000 bytes, random and structured, against the reference stuffing",
}
TECH = "property-based testing: generated inputs against the independent reference model of vlib/ref.py, choice-sequence shrinking to a replay file"

checks = []
notes = {}
path = os.path.join(HERE, "tools", "level_notes.json")
if os.path.exists(path):
    notes = json.load(open(path))
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    if not os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
        continue
    n = notes.get(p["id"], {})
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"{PY} {p['id']} --tier quick",
            "thorough_cmd": f"{PY} {p['id']} --tier thorough",
            "technique": n.get("technique", TECH),
            "level": "exploration",
            "level_note": n.get("note", "generated cases only: absence of a violation is not a proof"),
        }
    )
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B tools/setup_check.py",
    "checks": checks,
    "not_applicable": [],
    "notes": "Everything runs in place: python modules of /repo's working tree are imported directly, nothing is built or downloaded. /repo carries fix: commits only, no hooks. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
