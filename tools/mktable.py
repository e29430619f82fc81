"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["needs"].replace("|", "/"), m["property"]))
s = open(R + "/DESIGN.md").read()
head = "| planted bug | needs | caught by |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
open(R + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + s[j:])
