#!/usr/bin/env python3
# writes the table of planted bugs into DESIGN.md (the checks do not read seeded/; this is documentation)
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
t = open(H + "/DESIGN.md").read()
a, b = t.index("<!-- seeds -->"), t.index("<!-- end seeds -->")
t = t[:a] + "<!-- seeds -->\n%d planted bugs.\n\n| bug | property, whose check catches it | breaks | needs |\n|---|---|---|---|\n%s\n" % (len(rows), "\n".join(rows)) + t[b:]
open(H + "/DESIGN.md", "w").write(t)
