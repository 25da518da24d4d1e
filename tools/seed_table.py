#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| planted bug | property, caught by | needs |\n|---|---|---|')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    print('| %s | %s | %s |' % (i, m['property'], m['needs']))
