#!/usr/bin/env python3
"""fills the table of planted bugs in DESIGN.md"""
import collections, glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d[json.load(open(f))["property"]].append(f.split("/")[-2])
rows = ["| check | planted bugs caught |", "|---|---|"] + ["| %s | %s |" % (p, ", ".join(d[p])) for p in sorted(d)]
p = here + "/DESIGN.md"
t = open(p).read()
block = "<!-- planted -->\n%s\n<!-- end -->" % "\n".join(rows)
t = t.replace("@TABLE@", block) if "@TABLE@" in t else re.sub(r"<!-- planted -->.*?<!-- end -->", lambda m: block, t, flags=re.S)
n = str(sum(map(len, d.values())))
t = t.replace("@SEEDS@", n) if "@SEEDS@" in t else re.sub(r"`seeded/` holds \d+ changes", "`seeded/` holds %s changes" % n, t)
open(p, "w").write(t)
