#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
text = open(os.path.join(V, "DESIGN.md")).read()
head = text.split("@@SEEDED@@")[0].split("| planted |")[0].rstrip()
rows = ["| planted | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n\n" + "\n".join(rows) + "\n")
