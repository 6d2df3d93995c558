#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | needs |", "|---|---|---|"]
ms = []
for m in glob.glob(V + "/seeded/*/meta.json"):
    j = json.load(open(m))
    ms.append((j["property"], os.path.basename(os.path.dirname(m)), j["needs"]))
for p, i, n in sorted(ms):
    rows.append("| %s | %s | %s |" % (i, p, n.replace("|", "/")))
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
