#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (used while developing only)."""
import glob, json, os
rows = ["| bug | property | needs | breaks |", "|-----|----------|-------|--------|"]
for m in sorted(glob.glob("seeded/*/meta.json"), key=lambda m: (json.load(open(m))["property"], m)):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (m.split("/")[1], d["property"], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
t = open("DESIGN.md").read().split("<!-- table -->")[0]
open("DESIGN.md", "w").write(t + "<!-- table -->\n" + "\n".join(rows) + "\n")
