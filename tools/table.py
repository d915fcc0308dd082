"""python3 tools/table.py     rewrites the table of the planted bugs in DESIGN.md from seeded/*/meta.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property, caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
head = s.split("<!-- table -->")[0]
open(p, "w").write(head + "<!-- table -->\n" + "\n".join(rows) + "\n")
