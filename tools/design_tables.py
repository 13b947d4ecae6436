#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/matrix-results.txt."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(V + '/tools/matrix-results.txt'):
    m = re.match(r'(\S+) (C\d\d) rc=(\d) \d+ (?:message: ?)?(.*?) \[(\d+) cases', l)
    if m: res[m.group(1)] = (m.group(2), m.group(3), m.group(4), m.group(5))
rows = ['| change | property | needs | quick check of the property | cases until found |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f)); j = json.load(open(f)); r = res.get(i)
    rows.append('| %s | %s | %s | %s | %s |' % (i, j['property'], j['needs'].replace('|', '/'), 'caught' if r and r[1] == '1' else 'MISSED' if r else 'not run', r[3] if r else ''))
p = V + '/DESIGN.md'; t = open(p).read()
a, b = '<!-- seeded table -->\n', '<!-- end seeded table -->'
i, j = t.index(a) + len(a), t.index(b)
open(p, 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
