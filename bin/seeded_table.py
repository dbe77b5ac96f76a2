"""The table of planted bugs of DESIGN.md, from /verif/seeded and the notes below."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed when it was planted; what made the checks see it
LATE = json.load(open(os.path.join(HERE, "bin", "seeded_late.json")))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    note = LATE.get(d, "caught")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), note))
table = "| planted bug | check | needs | result |\n|---|---|---|---|\n" + "\n".join(rows)
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
if "@SEEDED@" in s:
    s = s.replace("@SEEDED@", "<!-- seeded -->\n" + table + "\n<!-- /seeded -->")
else:
    s = re.sub(r"<!-- seeded -->\n.*?\n<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + table + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
