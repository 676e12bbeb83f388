#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the heading "## 8." and the end)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
mark = "\n| bug | property | needs | breaks |\n"
s = s[: s.index(mark)] if mark in s else s[: s.index("\nPLANTS")]
rows = []
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
s += mark + "|-----|----------|-------|--------|\n"
s += "".join(f"| {i} | {p} | {n} | {b} |\n" for p, i, n, b in sorted(rows))
open(p, "w").write(s)
print(len(rows))
