#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {"c14-norm-slice-late-axis": "missed at first: misuse now changes attribute and dimensions together",
        "c18-model-keeps-inputs": "missed at first (no models in the check): ownership of layers, losses, optimizers and models is now part of C18"}
rows = ["| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    by = m["property"] + (", C19" if d == "c21-frozen-gamma" else "")
    rows.append("| %s | %s | %s | %s |" % (d, by, m["what_it_breaks"] + (" (*%s*)" % NOTE[d] if d in NOTE else ""), m["needs"]))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda q: q.group(1) + "\n".join(rows) + "\n" + q.group(2), s, flags=re.S)
open(p, "w").write(s)
