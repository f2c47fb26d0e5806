#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md; argument: file with lines 'id CHECK rc=N SECONDSs ...'."""
import json, os, sys, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(\S+) (C\d\d) rc=(\d) (\d+)s", l)
        if m:
            res[m[1]] = (m[3], m[4])
print("| planted bug | needs | quick check |")
print("|---|---|---|")
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    r = res.get(i)
    o = "-" if not r else ("caught, %s s" % r[1] if r[0] == "1" else "missed")
    print("| %s | %s | %s |" % (i, m["needs"].replace("|", "\\|"), o))
