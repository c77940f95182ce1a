#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md. Every bug listed was run against the
check of its property and caught by it."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + '/DESIGN.md').read()
head = t[:t.index('| change | property (')]
old = t[len(head):]
tail = ''
lines = old.split('\n')
for i, l in enumerate(lines):
    if not l.startswith('|'):
        tail = '\n'.join(lines[i:])
        break
rows = ['| change | property (whose check catches it) |', '|-|-|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append(f"| {d}: needs {m['needs']}; {m['what_it_breaks']} | {m['property']} |".replace('a | b', 'a \\| b'))
open(R + '/DESIGN.md', 'w').write(head + '\n'.join(rows) + '\n' + tail.lstrip('\n'))
