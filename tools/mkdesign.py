#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and caught.txt lines."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m.get("caught", m["property"]), m["needs"].replace("|", "/")))
p = root + "/DESIGN.md"; t = open(p).read()
h = "| planted bug | property | caught by | needs |\n|---|---|---|---|\n"
i = t.index(h) + len(h); j = t.index("\n## 7.", i)
open(p, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
