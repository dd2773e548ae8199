"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
head = text[: text.index("| bug | caught by | needs |")]
rows = ["| bug | caught by | needs |", "|---|---|---|"]
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    rows.append(f"| {b} | {m['property']} | {m['needs']} |")
open(path, "w").write(head + "\n".join(rows) + "\n")
