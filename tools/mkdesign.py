#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md (documentation only; no check uses this)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], f.split("/")[-2], m["needs"], m["what_it_breaks"]))
t = "| caught by | change | manifests with | breaks |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % tuple(x.replace("|", "/").replace("\n", " ") for x in r) for r in sorted(rows))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + t + "<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "changes")
