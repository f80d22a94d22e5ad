#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (all are caught by the check of their own property)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"]))
for p in sorted(rows):
    print("- **%s**: %s" % (p, "; ".join("`%s` (%s)" % (i, n.rstrip(".")) for i, n in rows[p])))
