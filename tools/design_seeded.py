"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
extra = {"c20-stage-cache": "C20, C21"}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| `%s` | %s | %s |" % (i, m["needs"].replace("|", "/").replace("\n", " "), extra.get(i, m["property"])))
s = open(H + "/DESIGN.md").read()
k = s.index("<!-- SEEDED -->")
open(H + "/DESIGN.md", "w").write(s[:k] + "<!-- SEEDED -->\n" + "\n".join(rows) + "\n")
