#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md (between the two markers) from seeded/*/meta.json."""
import json, os, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
rows.sort()
t = "| caught by | planted bug | needs | breaks |\n|---|---|---|---|\n" + "".join("| %s | `%s` | %s | %s |\n" % (a, b, n.replace("|", "\\|"), w.replace("|", "\\|")) for a, b, n, w in rows)
p = H + "/DESIGN.md"; s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
print(len(rows), "planted bugs")
