#!/usr/bin/env python3
"""Writes the fixed entries of known_findings.json from /repo's log and this table of properties."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = """1844089 C01
f25b885 C01
58046a8 C08
fc65173 C08
42634ee C10
40ff69d C10
2de1844 C06
588c9b8 C02
d9b2479 C02
4811d76 C04
4d4c30f C04
5b9e589 C03
36df149 C22
6bbc079 C21
46b1150 C21
0faf90a C06
1d1ad26 C03
f1c91d3 C14
a7fb4d3 C20
3631e79 C17
5c0e191 C17
f23d42f C14
febfe1f C09
f4350f8 C09
25dd64d C09
df2c3a8 C21
e0b05d8 C13
205c93d C19
7dd9dd3 C12
fbf7c43 C11
5eacae3 C18
fe567c9 C16
1ebb978 C16
d9e918b C16
c1721c6 C18
8bde105 C15
d7c4990 C13
558b676 C05
fa56810 C04
340302a C08
9b6c819 C08
9c727a4 C02
5cb4560 C11
4655086 C11
a9e4007 C11
9c98759 C19
d188bde C15
9c3d801 C17
6726702 C02
"""
path = os.path.join(ROOT, "known_findings.json")
try:
    cur = json.load(open(path))
except Exception:
    cur = {"findings": []}
t = dict(l.split() for l in TABLE.splitlines())
extra = os.path.join(ROOT, "tools", "fixes.txt")
if os.path.exists(extra):
    t.update(l.split() for l in open(extra) if l.strip())
fixed = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "da60447..HEAD"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        if h not in t:
            print("no property for", l)
            continue
        fixed.append("fixed: property=%s %s %s" % (t[h], h, s[5:]))
json.dump({"findings": cur["findings"], "fixed": fixed}, open(path, "w"), indent=1, ensure_ascii=False)
print(len(fixed), "fixed")
