"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""

import collections
import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
rows = collections.defaultdict(list)
for meta in sorted(VERIF.glob("seeded/*/meta.json")):
    data = json.loads(meta.read_text())
    rows[data["property"]].append(f"`{meta.parent.name.split('-', 1)[1]}` ({data['needs']})")
text = (VERIF / "DESIGN.md").read_text()
head = "| check | catches (what it needs) |\n|---|---|\n"
before, after = text.split(head)
rest = after.split("\n\n", 1)
table = "\n".join(f"| {prop} | {'; '.join(bugs)} |" for prop, bugs in sorted(rows.items()))
(VERIF / "DESIGN.md").write_text(before + head + table + ("\n\n" + rest[1] if len(rest) > 1 else "\n"))
