#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (documentation only; no check calls this)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | check that catches it | what it breaks |", "|---|---|---|"]
def key(p):
    return int(re.match(r"B(\d+)", os.path.basename(p)).group(1))
for p in sorted(glob.glob(f"{root}/seeded/B*"), key=key):
    m = json.load(open(f"{p}/meta.json"))
    rows.append(f"| {os.path.basename(p)} | {m['property']} | {m['what_it_breaks']} |")
d = open(f"{root}/DESIGN.md").read()
a, b = "<!-- bugs -->", "<!-- /bugs -->"
d = d[:d.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + d[d.index(b):]
open(f"{root}/DESIGN.md", "w").write(d)
