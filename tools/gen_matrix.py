#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["what_it_breaks"], m["needs"]))
t = "| property, caught by | planted bug | what it breaks | needs |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % (a, b, c.replace("|", "\\|"), e.replace("|", "\\|")) for a, b, c, e in sorted(rows))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- matrix -->\n).*?(<!-- end -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
