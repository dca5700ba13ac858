#!/usr/bin/env python3
"""Regenerates the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(root + '/DESIGN.md').read()
mark = '<!-- planted bugs -->\n'
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
                m['what_it_breaks'].strip(), m['needs'].strip()))
head = text.split(mark)[0]
open(root + '/DESIGN.md', 'w').write(head + mark + '\n'.join(rows) + '\n')
