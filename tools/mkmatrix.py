#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 4) from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
head = "| property | planted bug | |\n"
a = s.index(head)
b = s.index("\n\n", a)
old = dict(re.findall(r"^\| C\d\d \| ([\w-]+) \| (.*?) \|$", s[a:b], re.M))
rows = []
for m in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
    i = os.path.basename(os.path.dirname(m))
    rows.append((json.load(open(m))["property"], i, old.get(i, "caught")))
rows.sort()
s = s[:a] + head + "|---|---|---|\n" + "\n".join("| %s | %s | %s |" % r for r in rows) + s[b:]
open(f, "w").write(s)
print(len(rows), "planted bugs")
