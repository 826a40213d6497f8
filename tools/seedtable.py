#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seed | property | needs | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda s: " ".join(str(s).split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], c(m["needs"]), c(m["what_it_breaks"])))
p = root + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
t = t.replace("SEEDTABLE", a + "\n" + b)
t = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, t, flags=re.S)
open(p, "w").write(t)
