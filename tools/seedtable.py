#!/usr/bin/env python3
"""Prints the table of planted changes of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
by = {}
for f in glob.glob(root + '/*/meta.json'):
    d = json.load(open(f))
    by.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d['needs']))
for p in sorted(by):
    print(f'* **{p}** ({len(by[p])}): ' + '; '.join(f'`{i}`' + (f' – {n.strip().rstrip(".")}') for i, n in sorted(by[p])) + '.')
