#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + '/DESIGN.md'
s = open(p).read()
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks']))
head = '| bug | caught by | what it does |\n|---|---|---|\n'
a = s.index(head) + len(head)
b = re.search(r'^(?!\|)', s[a:], re.M).start() + a
open(p, 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])
print(len(rows), 'planted bugs')
