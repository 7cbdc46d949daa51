"""Writes the table of planted bugs at the end of DESIGN.md"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    p = os.path.join(HERE, 'seeded', d, 'meta.json')
    if os.path.exists(p):
        with open(p) as f:
            m = json.load(f)
        rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
mark = '<!-- planted -->\n'
path = os.path.join(HERE, 'DESIGN.md')
with open(path) as f:
    s = f.read()
s = s[:s.index(mark)] + mark + '''## Planted bugs

Each is caught by the check of its own property (the column), with the quick tier.

| id | caught by | needs | breaks |
|----|-----------|-------|--------|
''' + '\n'.join(rows) + '\n'
with open(path, 'w') as f:
    f.write(s)
