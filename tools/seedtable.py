#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | needs | caught by |\n|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    print("| %s | %s | %s |" % (os.path.basename(d), m["needs"].replace("|", "/").replace("\n", " "), m["property"]))
