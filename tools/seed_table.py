#!/usr/bin/env python3
"""Writes the table of planted changes at the end of DESIGN.md."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read().split('\n### Table of planted changes\n')[0].rstrip('\n')
open(p, 'w').write(t + '\n\n### Table of planted changes\n\n'
                   '| id | caught by | needs | breaks |\n|----|----|----|----|\n' + ''.join(rows))
