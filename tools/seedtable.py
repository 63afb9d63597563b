#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    f = sorted(set(re.findall(r'^\+\+\+ b/include/ktl/(\S+)', open(os.path.join(H, 'seeded', d, 'patch.diff')).read(), re.M)))
    rows.append(f"| {d} | {', '.join(f)} | {m['what_it_breaks']} | {m['needs']} |".replace('\n', ' '))
t = open(os.path.join(H, 'DESIGN.md')).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = t.index(a) + len(a), t.index(b)
t = t[:i] + '| seed (its prefix is the check that catches it) | file | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + t[j:]
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)
print(len(rows), 'seeds')
