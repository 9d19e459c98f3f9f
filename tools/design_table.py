#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    meta = json.loads((d / "meta.json").read_text())
    caught = meta.get("caught_by", meta["property"])
    needs = meta["needs"].replace("|", "\\|")
    rows.append(f"| {d.name} | {caught} | {needs} |")
path = root / "DESIGN.md"
text = path.read_text()
a, b = "<!-- seeds -->\n", "<!-- end of seeds -->"
head, rest = text.split(a, 1)
_, tail = rest.split(b, 1)
path.write_text(head + a + "\n".join(rows) + "\n" + b + tail)
