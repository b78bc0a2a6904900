#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(V + "/tools/caught.txt"):
    k, _, v = l.strip().partition(": ")
    caught[k] = v
rows = ["| planted | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], caught.get(i, "?")))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->"
s = s.replace("SEEDED_TABLE", t) if "SEEDED_TABLE" in s else re.sub(r"<!-- table -->.*<!-- /table -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
