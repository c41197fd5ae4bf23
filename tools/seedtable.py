#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in glob.glob(os.path.join(HERE, 'seeded', '*')):
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append((m['property'], os.path.basename(d), m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
text = '| caught by | planted bug | what it breaks | needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in sorted(rows))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = s.index('<!-- seeds -->'), s.index('<!-- /seeds -->')
open(p, 'w').write(s[:a] + '<!-- seeds -->\n' + text + s[b:])
