"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it needs | breaks |\n|---|---|---|---|"]
for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    with open(path) as handle:
        meta = json.load(handle)
    rows.append("| %s | %s | %s | %s |" % (path.split(os.sep)[-2], meta["property"], meta["needs"].replace("|", "/"),
                                   meta["what_it_breaks"].replace("|", "/")))
DESIGN = os.path.join(ROOT, "DESIGN.md")
with open(DESIGN) as handle:
    head, rest = handle.read().split("<!-- table -->\n")
    tail = rest.split("<!-- end -->")[1]
with open(DESIGN, "w") as handle:
    handle.write(head + "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->" + tail)
