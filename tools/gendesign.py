#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
s = open(V + "/DESIGN.md").read()
s = re.sub(r"\| planted bug \|.*?\n\n", lambda _: "\n".join(rows) + "\n\n", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows) - 2, "planted bugs")
