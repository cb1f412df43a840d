#!/usr/bin/env python3
"""Rewrites the generated end of DESIGN.md (defects, planted bugs) from known_findings.json, seeded/*/meta.json and tools/caught.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Defects of mentat\n"
s = open(V + "/DESIGN.md").read()
if MARK in s: s = s[:s.index(MARK)]
k = json.load(open(V + "/known_findings.json"))
t = MARK + "\nRepaired (one `fix:` commit each; the last column is what failed):\n\n| property | commit | what failed |\n|---|---|---|\n"
for f in k["fixed"]:
    _, p, c, w = f.split(" ", 3)
    t += "| %s | %s | %s |\n" % (p.split("=")[1], c, w.replace("|", "/"))
t += "\nRecorded, not repaired (the check prints `KNOWN-FINDING`):\n\n"
for f in k["findings"]:
    t += "* %s `%s`: %s\n" % (f["property"], f["signature"], f["what"])
t += "\n## Planted bugs\n\n`caught` is the check that reports it (quick tier).\n\n| planted | needs | caught |\n|---|---|---|\n"
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    t += "| %s | %s | %s |\n" % (i, m["needs"].replace("|", "/").replace("\n", " "), c.get(i, "not run yet"))
open(V + "/DESIGN.md", "w").write(s.rstrip() + "\n\n" + t)
