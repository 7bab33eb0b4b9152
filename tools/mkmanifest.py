"""Write MANIFEST.json for the properties that have a check."""

import importlib
import json
import pathlib
import re
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))

NOTES = json.loads((ROOT / "tools" / "notes.json").read_text())

checks, missing = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    f = ROOT / "vt" / "checks" / f"{p.lower()}.py"
    if not f.exists():
        missing.append({"property": p, "reason": "no check built yet"})
        continue
    level = re.search(r'^LEVEL = "(\w+)"', f.read_text(), re.M).group(1)
    technique, note = NOTES[p]
    checks.append({
        "property": p,
        "quick_cmd": f"bash run.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}",
        "technique": technique,
        "level": level,
        "level_note": note,
    })
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": missing,
}, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "missing")
