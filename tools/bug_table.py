"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read().split("\n<!-- bugs -->")[0].rstrip("\n")
res = {}
f = os.path.join(H, "tools", "bug_results.json")
if os.path.exists(f):
    res = json.load(open(f))
rows = []
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append((d["property"], i, d["what_it_breaks"].replace("|", "/"), res.get(i, "?")))
s += "\n\n<!-- bugs -->\n\n| property | change | what it breaks | caught by |\n|---|---|---|---|\n"
s += "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
open(p, "w").write(s)
