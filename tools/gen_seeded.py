"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    t = [str(m[k]).replace("|", "/").replace("\n", " ") for k in ("property", "what_it_breaks", "needs")]
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), *t))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded begin -->", "<!-- seeded end -->"
s = s[: s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
