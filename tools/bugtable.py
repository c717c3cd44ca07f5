#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (not used by any check)."""
import glob, json, os
rows = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '../seeded/*/meta.json'))):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append(os.path.basename(os.path.dirname(f)))
for p in sorted(rows):
    print('- %s: %s' % (p, ', '.join(rows[p])))
