#!/usr/bin/env python3
"""Prints the table of planted bugs for design/bugs.md: id, the check that catches it, what it needs. Run by hand after tries."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | caught by | needs |\n|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    print("| %s | %s | %s |" % (d, m["property"], m["needs"]))
