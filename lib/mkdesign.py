"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs"
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split(MARK)[0]
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"].replace("|", "/")))
s += MARK + """

Each is caught by the quick check of its property (`python3 lib/plant.py ID` builds it in a scratch copy, runs the stable
tests, the demonstration with and without it, and the check), and was confirmed to pass the stable tests.

| id | caught by | needs |
|----|-----------|-------|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
