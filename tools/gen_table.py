"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(d for d in os.listdir(os.path.join(V, "seeded")) if os.path.exists(os.path.join(V, "seeded", d, "meta.json")))
rows = ["| bug | what it breaks | what it needs | caught by |", "|---|---|---|---|"]
for i in ids:
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    c = m["property"]
    by = m.get("caught_by", c)
    rows.append("| %s | %s | %s | %s |" % (i, *(m[k].strip().rstrip(".").replace("|", "/").replace("\n", " ") for k in ("what_it_breaks", "needs")), by))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->\n"
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@\n", a + b)
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
print(len(ids), "bugs")
