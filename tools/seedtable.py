#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs"
rows = []
for ff in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    mm = json.load(open(ff))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(ff)), mm["property"], mm["what_it_breaks"], mm["needs"]))
path = os.path.join(HERE, "DESIGN.md")
txt = open(path).read().split(MARK)[0].rstrip()
txt += "\n\n%s\n\nEach is caught by the quick check of the property it is listed with (`tools/plant.py check`).\n\n" % MARK
txt += "| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(path, "w").write(txt)
