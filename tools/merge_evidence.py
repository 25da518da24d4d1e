#!/usr/bin/env python3
"""merge_evidence.py ID N: adds what the parts ID-1 .. ID-N of a check covered to evidence/ID.json."""
import json, os, sys

d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence')
main = os.path.join(d, sys.argv[1] + '.json')
e = json.load(open(main))
c = e['coverage']
for i in range(1, int(sys.argv[2]) + 1):
    path = os.path.join(d, '%s-%d.json' % (sys.argv[1], i))
    p = json.load(open(path))
    os.remove(path)
    q = p['coverage']
    for k in ('states', 'transitions', 'traces_validated_against_impl', 'cases'):
        c[k] += q[k]
    c['exhaustive'] = c['exhaustive'] and q['exhaustive']
    for k, v in q['families'].items():
        c['families'][k + ' (with compressed formats)'] = v
    for k, v in q.get('counts', {}).items():
        c.setdefault('counts', {})
        c['counts'][k] = c['counts'].get(k, 0) + v
    c['samples'] = c['samples'][:6] + q['samples'][:6]
    e['wall_s'] += p['wall_s']
    e['violations'] += p['violations']
    e['assumptions'] += [a for a in p['assumptions'] if a not in e['assumptions']]
json.dump(e, open(main, 'w'), indent=1)
