#!/usr/bin/env python3
# writes the table of planted bugs in DESIGN.md from seeded/*/meta.json
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | manifests with | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    esc = lambda t: t.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], esc(m["needs"]), esc(m["what_it_breaks"])))
d = open(V + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
if a not in d:
    d = d.replace("SEEDTABLE\n", a + b + "\n")
i, j = d.index(a) + len(a), d.index(b)
open(V + "/DESIGN.md", "w").write(d[:i] + "\n".join(rows) + "\n" + d[j:])
