#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md between its markers. caught.txt (from catch.sh) says what caught them."""
import json, os, glob, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
also = {}
f = here + "/tools/also.txt"
if os.path.exists(f):
    for l in open(f):
        a = l.split()
        if a: also[a[0]] = a[1:]
for d in sorted(glob.glob(here + "/seeded/*/")):
    m = json.load(open(d + "meta.json")); id = os.path.basename(d[:-1])
    rows.append(f"| {id} | {m['property']} | {m['needs']} | {', '.join(also.get(id, [m['property']]))} |")
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
