"""Writes the table of planted bugs into DESIGN.md, between two markers."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what was added because the checks of that time missed the bug
AFTER = json.load(open(V + "/tools/after.json"))
rows = ["| bug | check | first | what it breaks |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    a = AFTER.get(i)
    one = " ".join(m["what_it_breaks"].split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], "yes" if not a else "no; caught since: " + a if not a.startswith("!") else a[1:], one))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!-- catches -->.*?<!-- /catches -->", lambda _: "<!-- catches -->\n" + "\n".join(rows) + "\n<!-- /catches -->", d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
