"""Writes the table of planted bugs into DESIGN.md (between its two markers) from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json")), key=lambda f: (json.load(open(f))["property"], f)):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
