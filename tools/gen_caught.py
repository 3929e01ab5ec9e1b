#!/usr/bin/python3
"""Prints the table of planted bugs for DESIGN.md."""
import glob, json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for path in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(path))
    rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(path)), m))
for p in sorted(rows):
    for name, m in rows[p]:
        print(f"| {p} | `{name}` | {m['what_it_breaks'].strip()} | {m['needs'].strip()} |")
