#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
f = root / "DESIGN.md"
text = f.read_text()
mark = "<!-- planted -->"
head = text.split(mark)[0].rstrip() + "\n\n" + mark + "\n"
rows = ["| bug | check | needs | what it breaks |", "| --- | --- | --- | --- |"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
f.write_text(head + "\n".join(rows) + "\n")
