#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.abspath(__file__))
rows = ["| change | property, caught by | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    c = lambda t: re.sub(r"\s+", " ", t).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"] + m.get("caught", ""), c(m["what_it_breaks"]), c(m["needs"])))
s = open(os.path.join(R, "DESIGN.md")).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(os.path.join(R, "DESIGN.md"), "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
