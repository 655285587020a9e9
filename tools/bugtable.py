"""Writes the table of planted bugs into DESIGN.md (between the marks), from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | found by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]),
                                         m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = "<!-- bugs -->", "<!-- /bugs -->"
s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: "%s\n%s\n%s" % (a, "\n".join(rows), b), s, flags=re.S)
open(p, "w").write(s)
