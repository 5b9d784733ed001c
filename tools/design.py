#!/usr/bin/env python3
"""Writes the generated parts of DESIGN.md: the fixed defects and the planted bugs."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(os.path.join(ROOT, "known_findings.json")))
fixed = ["- " + f.replace("fixed: property=", "") for f in d["fixed"]]
rows = []
notes = {}
p = os.path.join(ROOT, "tools", "caught.txt")
if os.path.exists(p):
    for l in open(p):
        if l.strip():
            k, v = l.strip().split(None, 1)
            notes[k] = v
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], notes.get(s, "caught by " + m["property"])))
t = open(os.path.join(ROOT, "DESIGN.md")).read()
def put(t, name, text):
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + text + "\n" + t[j:]
t = put(t, "fixed", "\n".join(fixed))
t = put(t, "seeded", "| bug | property | what it breaks | what it needs | outcome |\n|---|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
