"""tools/mktable.py catch.json: writes the table of planted changes at the end of DESIGN.md.
catch.json: {seed: [property, exit status of the quick check, seconds]}"""
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(sys.argv[1]))
by = {}
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
    rc = res.get(s, [m["property"], 1, 0])[1]
    by.setdefault(m["property"], []).append(s.split("-", 1)[1] if rc == 1 else s.split("-", 1)[1] + " (missed)")
lines = ["| property | planted changes in `seeded/` (without the prefix) that the quick check of the property catches |", "|---|---|"]
lines += ["| %s | %s |" % (p, ", ".join(by[p])) for p in sorted(by)]
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
open(path, "w").write(text[:text.index("<!-- table -->")] + "<!-- table -->\n" + "\n".join(lines) + "\n")
