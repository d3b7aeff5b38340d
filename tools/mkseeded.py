#!/usr/bin/env python3
"""Print the table of planted bugs (seeded/*/meta.json) as markdown, for DESIGN.md."""
import json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = os.path.join(HERE, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    files = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(os.path.join(d, "patch.diff")).read(), re.M)))
    rows.append("| %s | %s | %s | %s |" % (i, ", ".join(os.path.basename(f) for f in files), m["what_it_breaks"], m["needs"]))
head = ["| bug | file | what it breaks | what it needs |", "|---|---|---|---|"]
table = "\n".join(head + rows) + "\n"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
if a in s:
    s = s[: s.index(a) + len(a)] + table + s[s.index(b):]
    open(p, "w").write(s)
else:
    sys.stdout.write(table)
