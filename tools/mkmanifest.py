"""Write MANIFEST.json for the properties that have a check"""

import importlib.util
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(VERIF, "tools", "notes.json")))

checks, missing = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    prop = json.loads(line)["id"]
    note = NOTES.get(prop)
    if not os.path.exists(f"{VERIF}/mc/props/{prop.lower()}.py") or not note:
        missing.append({"property": prop, "reason": "no check has been built yet"})
        continue
    checks.append(
        {
            "property": prop,
            "quick_cmd": f"./check {prop} quick",
            "thorough_cmd": f"./check {prop} thorough",
            "evidence_file": f"evidence/{prop}.json",
            "technique": note["technique"],
            "level": note["level"],
            "level_note": note["note"],
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: everything is observed through public entry points, "
    "log records, the file system and interpreter trace events.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
