#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md. usage: seedtable.py LOG... (outputs of mkseed.py --check)"""
import json, glob, os, re, sys
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) own: (\S+)", l)
        if m: res[m[1]] = m[2]
rows = []
for f in glob.glob("/verif/seeded/*/meta.json"):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["needs"], {"caught": m["property"], None: "not run"}.get(res.get(i), "missed")))
t = "| change | needs | caught by |\n|--------|-------|-----------|\n" + "".join("| %s | %s | %s |\n" % (i, n.replace("|", "\\|"), c) for p, i, n, c in sorted(rows))
d = open("/verif/DESIGN.md").read()
d = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n%d changes:\n\n%s<!-- /seeds -->" % (len(rows), t), d, flags=re.S)
open("/verif/DESIGN.md", "w").write(d)
print([r for r in rows if r[3] != r[0]])
