#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (by hand, after `plant.py catch`)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(root + "/DESIGN.md").read()
head = s[: s.index("| planted bug |")] if "| planted bug |" in s else s.replace("TABLE", "").rstrip() + "\n\n"
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |".replace("\n", " "))
open(root + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
