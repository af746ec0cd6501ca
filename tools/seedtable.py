"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
old = re.search(r"<!-- seeds -->\n(.*?)<!-- /seeds -->", s, re.S).group(1)
head = old.splitlines()[:2]
rows = {}
for m in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    keep = [r for r in old.splitlines() if r.startswith("| %s |" % i)]
    one = lambda t: " ".join(t.split()).replace("|", "/")
    rows[i] = keep[0] if keep else "| %s | %s | %s | %s |" % (i, one(d["what_it_breaks"]), one(d["needs"]),
                                                             d.get("caught_by", d["property"]))
s = s.replace(old, "\n".join(head + [rows[i] for i in sorted(rows)]) + "\n")
open(p, "w").write(s)
print(len(rows), "rows")
