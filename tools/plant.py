#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a definition file and tries it in a scratch copy of /repo.

usage: plant.py DEF.py [--check PROPERTY...]

DEF.py defines: id, property, needs, breaks, edits = [(file, old, new[, count])], demo (C++ source of main and
helpers) or script (shell), tool = True to build the tool as well.
The scratch copy is mounted over /repo in a namespace of its own, so /repo itself is never changed.
"""
import json, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Exit 0: behaves; nonzero: the planted bug shows.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/cuttlefish"
printf '#pragma once\n#define CUTTLEFISH_EXPORT\n' > "$T/cuttlefish/Export.h"
F="-std=gnu++14 -O1 -g1 -w @FLAGS@ -DCUTTLEFISH_ISPC=0 -I$T -I$R/lib/include -I$R/lib/src -I$R/lib/glm"
export F T
ls "$R"/lib/src/*.cpp@TOOLSRC@@DEMOSRC@ | xargs -P8 -I{} sh -c 'g++ $F -c "{}" -o "$T/$(basename "{}").o"' || exit 3
g++ @FLAGS@ "$T"/*.o -o "$T/demo" -lfreeimage -lpthread || exit 3
cd "$T" || exit 3
@RUN@
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    d = {}
    exec(open(sys.argv[1]).read(), d)
    id = d['id']
    out = os.path.join(VERIF, 'seeded', id)
    os.makedirs(out, exist_ok=True)
    scratch = '/tmp/seed/%s' % id
    if os.path.isdir(scratch):
        shutil.rmtree(scratch)
    os.makedirs('/tmp/seed', exist_ok=True)
    sh('cp -a /repo %s' % scratch)
    try:
        for e in d['edits']:
            p = os.path.join(scratch, e[0])
            s = open(p, encoding='utf-8', newline='').read()
            n = e[3] if len(e) > 3 else 1
            if s.count(e[1]) != n:
                print('%s: %d matches in %s of %r' % (id, s.count(e[1]), e[0], e[1]))
                return 2
            open(p, 'w', encoding='utf-8', newline='').write(s.replace(e[1], e[2]))
        diff = subprocess.run(['git', '-C', scratch, 'diff'], stdout=subprocess.PIPE).stdout
        open(out + '/patch.diff', 'wb').write(diff)
        tool = d.get('tool', False)
        demo = DEMO.replace('@FLAGS@', d.get('flags', '')).replace('@TOOLSRC@', ' "$R"/tool/*.cpp' if tool else '')
        if tool:
            demo = demo.replace('@DEMOSRC@', '')
            open(out + '/run.sh', 'w').write(d['script'])
            demo = demo.replace('@RUN@', 'TOOL=$T/demo REPO=$R timeout 200 bash "$D/run.sh"')
        else:
            demo = demo.replace('@DEMOSRC@', ' "$D"/demo.cpp').replace('@RUN@', 'timeout 200 ./demo')
            open(out + '/demo.cpp', 'w').write(d['demo'])
        open(out + '/demo.sh', 'w').write(demo)
        os.chmod(out + '/demo.sh', 0o755)
        for n, text in d.get('files', {}).items():
            os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
            open(os.path.join(out, n), 'w').write(text)
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        r = sh('cd /repo && bash %s/demo.sh' % out)
        ok = r.returncode == 0
        print('%s: demo on the unchanged tree: %d %s' % (id, r.returncode, '' if ok else r.stdout[-800:]))
        ns = "unshare -Urm bash -c 'mount --bind %s /repo && %%s'" % scratch
        r = sh(ns % ('cd /repo && bash %s/demo.sh' % out))
        print('%s: demo with the patch: %d %s' % (id, r.returncode, r.stdout[-300:].strip()))
        ok = ok and r.returncode not in (0, 2, 3)
        r = sh(ns % 'bash /opt/vp/test.sh %s/t.json' % scratch)
        b = json.load(open('/opt/vp/BASELINE.json'))
        t = json.load(open(scratch + '/t.json')) if os.path.exists(scratch + '/t.json') else {'passed': []}
        base = set(b.get('passed') or b.get('stable') or b.get('tests'))
        miss = sorted(base - set(t['passed']))
        print('%s: tests: %d of %d pass %s' % (id, len(base) - len(miss), len(base), miss[:5] if miss else ''))
        ok = ok and not miss
        for c in sys.argv[3:] if len(sys.argv) > 2 else []:
            r = sh(ns % ('cd %s && ./check %s' % (VERIF, c)))
            lines = [l[:200] for l in r.stdout.splitlines() if l.strip()]
            print('%s: check %s: exit %d\n   %s' % (id, c, r.returncode, '\n   '.join(lines[:4])))
        if not ok:
            print('%s: NOT A VALID PLANT' % id)
        return 0 if ok else 1
    finally:
        shutil.rmtree(scratch)


sys.exit(main())
