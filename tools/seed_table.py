"""Rewrites DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded*/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("@TABLE@", t) if "@TABLE@" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
