#!/usr/bin/env python3
"""Rewrites the rows of the table of planted bugs in DESIGN.md from seeded/*/meta.json; verdicts already there stay. Arguments: ids missed at first."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"; t = open(p).read()
i = t.index("## Planted bugs"); j = t.index("## Mutation testing")
s = t[i:j]
rows = re.findall(r"^\| (C\d\d) \| (\S+) \| (.*) \| ([^|]*) \|$", s, re.M)
verdict = {r[1]: r[3] for r in rows}
for a in sys.argv[1:]: verdict[a] = "missed first, caught since"
new = []
for d in os.listdir(V + "/seeded"):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    new.append("| %s | %s | %s | %s |" % (m["property"], d, m["what_it_breaks"].replace("|", "/"), verdict.get(d, "caught")))
first = s.index("| %s | %s |" % rows[0][:2])
last = s.rindex("|") + 1
t = t[:i] + s[:first] + "\n".join(sorted(new)) + s[last:] + t[j:]
open(p, "w").write(t)
print(len(new))
