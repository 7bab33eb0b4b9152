"""Rewrite the table of section 8 of DESIGN.md from seeded/*/meta.json (python3 tools/mktable.py)."""

import collections
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
bugs = collections.defaultdict(list)
for meta in sorted(ROOT.glob("seeded/*/meta.json")):
    bugs[json.loads(meta.read_text())["property"]].append(meta.parent.name)
table = ["| check | planted bugs it catches |", "|---|---|"]
table += [f"| {check} | {', '.join(names)} |" for check, names in sorted(bugs.items())]
design = ROOT / "DESIGN.md"
text = design.read_text()
start = text.index("| check | planted bugs it catches |")
rest = text[start:].splitlines()
tail = [line for line in rest if not line.startswith("|")]
design.write_text(text[:start] + "\n".join(table + tail) + "\n")
print(sum(map(len, bugs.values())), "bugs")
