#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/catch.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + "/tools/catch.json"))
MARK, END = "<!-- catch table: written by tools/table.py -->\n", "\n## Not applicable"
rows = ["", "| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    c = C.get(d, {})
    rows.append(f"| {d} | {m['needs']} | " + ", ".join(f"{p} ({x})" if x != "CAUGHT" else p for p, x in sorted(c.items())) + " |")
s = open(V + "/DESIGN.md").read()
i, j = s.index(MARK) + len(MARK), s.index(END)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
