#!/usr/bin/env python3
"""Prints the planted bugs by property (a table for reading; no check uses it)."""
import glob, json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
rows = []
for f in glob.glob(d + "/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), " ".join(m["what_it_breaks"].split()), " ".join(m["needs"].split())))
for r in sorted(rows):
    print("%s  %-24s %s\n     needs: %s" % r)
print(len(rows), "planted bugs")
