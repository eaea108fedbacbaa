#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| change | check that catches it | what it breaks | needs |", "| --- | --- | --- | --- |"]
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d.get("caught_by", d["property"]), d["what_it_breaks"], d["needs"]))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
mark = "<!-- planted -->"
open(p, "w").write(s[:s.index(mark) + len(mark)] + "\n" + "\n".join(rows) + "\n")
