#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
head = t[:t.index("| id | check | what it breaks |")]
rows = ["| id | check | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} |")
open(p, "w").write(head + "\n".join(rows) + "\n")
