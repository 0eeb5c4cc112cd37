"""Fills the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(## Planted changes\n\n).*\Z", lambda m: m.group(1) + "All are caught by the quick check of the property named (or as noted).\n\n" + "\n".join(rows) + "\n", s, flags=re.S)
open(p, "w").write(s)
