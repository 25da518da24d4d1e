#!/usr/bin/env python3
"""Applies an edit that keeps the behaviour in a scratch copy of /repo and runs checks, which have to stay quiet.

usage: quiet.py DEF.py PROPERTY...      DEF.py defines: edits = [(file, old, new[, count])]
"""
import os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
exec(open(sys.argv[1]).read(), d)
name = os.path.basename(sys.argv[1])[:-3]
scratch = '/tmp/quiet/%s' % name
shutil.rmtree(scratch, ignore_errors=True)
os.makedirs('/tmp/quiet', exist_ok=True)
subprocess.run(['cp', '-a', '/repo', scratch])
bad = 0
try:
    for e in d['edits']:
        p = os.path.join(scratch, e[0])
        s = open(p, encoding='utf-8', newline='').read()
        if s.count(e[1]) != (e[3] if len(e) > 3 else 1):
            print('%s: %d matches of %r' % (name, s.count(e[1]), e[1]))
            sys.exit(2)
        open(p, 'w', encoding='utf-8', newline='').write(s.replace(e[1], e[2]))
    ns = "unshare -Urm bash -c 'mount --bind %s /repo && %%s'" % scratch
    def run(c):
        return subprocess.run(ns % c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for c in sys.argv[2:]:
        r = run('cd %s && timeout 890 ./check %s' % (VERIF, c))
        lines = [l[:220] for l in r.stdout.splitlines() if l.strip()]
        print('%s: %s: exit %d   %s' % (name, c, r.returncode, '\n   '.join(lines[-1:] if r.returncode == 0 else lines[:6])), flush=True)
        bad |= r.returncode != 0
finally:
    shutil.rmtree(scratch)
sys.exit(bad)
