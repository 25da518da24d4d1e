#!/usr/bin/env python3
"""Mutation campaign (development aid, no check uses it).

usage: mutate.py OUTDIR SEED COUNT [FILE...]

Makes a scratch copy of /repo and of /verif under OUTDIR, changes one place at a time, keeps the changes
that compile and pass the existing tests, and runs the checks that concern the changed file until one
reports. Results go to OUTDIR/log.jsonl.
"""
import json, os, random, re, subprocess, sys, time

out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
repo, verif = out + '/repo', out + '/verif'
MAP = {
    'lib/src/Image.cpp': 'C11 C23 C10 C22 C18 C12 C17 C09 C13 C14 C16',
    'lib/src/Texture.cpp': 'C03 C09 C08 C22 C20 C17 C07 C05 C16',
    'lib/src/Converter.cpp': 'C02 C03 C20 C01',
    'lib/src/StandardConverter.cpp': 'C02 C19 C20 C01',
    'lib/src/StandardConverter.h': 'C02 C19 C20 C01',
    'lib/src/HalfFloat.h': 'C19 C02',
    'lib/src/HalfFloat.cpp': 'C19 C02',
    'lib/src/SaveDds.cpp': 'C04 C25 C20 C07 C16',
    'lib/src/SaveKtx.cpp': 'C05 C25 C20 C07 C16',
    'lib/src/SavePvr.cpp': 'C06 C25 C20 C07 C16',
    'lib/src/Shared.cpp': 'C10 C12 C07 C14',
    'tool/CommandLine.cpp': 'C15 C16',
    'tool/main.cpp': 'C16 C15',
    'lib/include/cuttlefish/Color.h': 'C12 C10 C11 C18',
    'lib/include/cuttlefish/Image.h': 'C10 C12 C23',
    'lib/include/cuttlefish/Texture.h': 'C08 C09 C17 C03',
}
for c in ('S3tc', 'Etc', 'Astc', 'Pvrtc'):
    MAP['lib/src/%sConverter.cpp' % c] = 'C24'
files = sys.argv[4:] or list(MAP)


def sh(cmd, t=1200):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              timeout=t, errors='replace')
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout))


os.makedirs(out, exist_ok=True)
if not os.path.isdir(repo):
    sh('cp -a /repo %s' % repo)
    sh('git clone -q /verif %s && mkdir -p %s/evidence' % (verif, verif))
NS = "unshare -Urm bash -c 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && %%s'" % (repo, verif)

OPS = [
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ' + 0'), (r' - 1\b', ' - 0'), (r'\+ 1\b', '+ 2'),
    (r'std::min\(', 'std::max('), (r'std::max\(', 'std::min('), (r'\bwidth\b', 'height'), (r'\bheight\b', 'width'),
    (r'\bif \(!', 'if ('), (r'\bif \((?!!)', 'if (!('), (r'return true;', 'return false;'),
    (r'return false;', 'return true;'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\*', '+'), (r'/', '*'),
    (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\bx\b', 'y'), (r'\by\b', 'x'), (r'\.r\b', '.g'), (r'\.b\b', '.r'),
    (r'\.a\b', '.b'), (r' >> ', ' << '), (r' << ', ' >> '), (r'\b0\.5f?\b', '0.4'), (r'\b255\b', '256'),
    (r'\bmip\b', '0'), (r'\bdepth\b', 'width'), (r'\bface\b', '0'), (r'^(\t+)([a-zA-Z_].*;)$', r'\1;'),
    (r'^(\t+)([a-zA-Z_].*;)$', r'\1;'), (r'^(\t+)break;$', r'\1;'), (r'\bcontinue;', ';'),
    (r'Clamp|clamp', 'noclamp'), (r'\b2\b', '3'), (r'\b4\b', '8'), (r'\b8\b', '16'), (r'\bUNorm\b', 'SNorm'),
    (r'\bUInt\b', 'Int'), (r'\b16\b', '8'), (r'\b31\b', '30'), (r'\bsRGB\b', 'Linear'), (r'(\d\.\d+)', r'1.01*\1'),
]


def places(path):
    res, off, comment = [], 0, False
    with open(path, encoding='utf-8', newline='') as f:
        lines = f.read().split('\n')
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            comment = True
        if not comment and s and not s.startswith(('//', '#', '*', 'case ', 'FORMAT', 'std::cerr', 'std::cout',
                                                   'assert', '<<', '"', 'namespace', 'using')):
            code = l.split('//')[0]
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if k == 16 and a.startswith(r'\bif \((?'):
                        # negate the whole condition when it ends on this line
                        if not code.rstrip().endswith(')'):
                            continue
                        new = new.rstrip() + ')'
                    if new != code:
                        res.append((n, code, new))
        if '*/' in s:
            comment = False
    return lines, res


rng = random.Random(seed)
pool = []
for f in files:
    lines, res = places(repo + '/' + f)
    # one candidate per line and at most a share per file
    by = {}
    for r in res:
        by.setdefault(r[0], []).append(r)
    for n in by:
        pool.append((f, rng.choice(by[n])))
rng.shuffle(pool)
log = open(out + '/log.jsonl', 'a')
done = 0
for f, (n, old, new) in pool:
    if done >= count:
        break
    path = repo + '/' + f
    orig = open(path, encoding='utf-8', newline='').read()
    lines = orig.split('\n')
    if not lines[n].startswith(old):
        continue
    lines[n] = new
    open(path, 'w', encoding='utf-8', newline='').write('\n'.join(lines))
    rec = {'file': f, 'line': n + 1, 'old': old.strip(), 'new': new.strip()}
    t0 = time.time()
    try:
        r = sh(NS % 'bash /opt/vp/build.sh', 300)
        if r.returncode:
            continue
        r = sh(NS % ('bash /opt/vp/test.sh %s/t.json' % out), 120)
        b = json.load(open('/opt/vp/BASELINE.json'))
        base = set(b.get('passed') or b.get('stable') or b.get('tests'))
        try:
            got = set(json.load(open(out + '/t.json'))['passed'])
        except Exception:
            got = set()
        if os.path.exists(out + '/t.json'):
            os.remove(out + '/t.json')
        if base - got:
            rec['result'] = 'tests'
        else:
            done += 1
            rec['result'] = 'SURVIVED'
            rec['checks'] = {}
            for c in MAP[f].split():
                r = sh(NS % ('timeout 900 ./check %s' % c))
                rec['checks'][c] = r.returncode
                if r.returncode == 1:
                    rec['result'] = 'caught by ' + c
                    rec['what'] = [l for l in r.stdout.splitlines() if l.strip()][:1]
                    break
                if r.returncode not in (0, 1):
                    rec['what'] = r.stdout[-300:]
        rec['s'] = round(time.time() - t0)
        log.write(json.dumps(rec) + '\n')
        log.flush()
    finally:
        open(path, 'w', encoding='utf-8', newline='').write(orig)
