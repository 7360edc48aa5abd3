#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for p in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(p))
    by.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(p)), m['needs']))
for k in sorted(by):
    print(f'| {k} | ' + '; '.join(f'`{a}` ({b})' for a, b in by[k]) + ' |')
