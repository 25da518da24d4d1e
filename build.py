#!/usr/bin/env python3
"""Builds a check's binary from /repo's current working tree.

usage: build.py TARGET   -> prints the path of the binary

Objects live in /verif/build/<hash of all library and tool sources + flags>/, so a changed tree
never reuses objects of another one.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
COMMON = ['-std=gnu++14', '-fno-strict-aliasing', '-faligned-new', '-Wno-comment', '-w',
          '-DCUTTLEFISH_ISPC=0', '-I' + VERIF + '/shim', '-I' + REPO + '/lib/include',
          '-I' + REPO + '/lib/src', '-I' + REPO + '/lib/glm', '-I' + REPO + '/tool']
VARIANTS = {
    # name: (compiler, compile flags for the library, link flags)
    'plain': ('g++', ['-O2', '-g1', '-DNDEBUG'], []),
    'asan': ('clang++', ['-O1', '-g1', '-DNDEBUG', '-fsanitize=address,undefined',
                     '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
                     '-fno-sanitize=function,vptr'],
             ['-fsanitize=address,undefined']),
    'sched': ('clang++', ['-O1', '-g1', '-DNDEBUG', '-fsanitize=thread'], []),
    'tsan': ('clang++', ['-O1', '-g1', '-DNDEBUG', '-fsanitize=thread'], ['-fsanitize=thread']),
}
# target: (variant, harness sources, link the tool sources?, extra libs)
TARGETS = {}
exec(open(os.path.join(VERIF, 'targets.py')).read())


def sha(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def repo_files():
    out = []
    for pat in ('lib/src/*', 'lib/include/cuttlefish/*', 'tool/*'):
        out += [f for f in glob.glob(os.path.join(REPO, pat)) if os.path.isfile(f)]
    return out


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(' '.join(cmd) + '\n' + p.stdout)
        raise SystemExit(2)


def compile_all(jobs):
    """jobs: list of (out, cmd)"""
    todo = [(o, c) for o, c in jobs if not os.path.exists(o)]

    def one(job):
        out, cmd = job
        tmp = out + '.tmp%d' % os.getpid()
        run(cmd + ['-o', tmp])
        os.rename(tmp, out)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))


def build(target):
    variant, srcs, tool, libs = TARGETS[target][:4]
    opts = TARGETS[target][4] if len(TARGETS[target]) > 4 else {}
    cxx, cflags, lflags = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    lib_cpp = sorted(glob.glob(REPO + '/lib/src/*.cpp'))
    if not lib_cpp:
        sys.stderr.write('no library sources in %s\n' % REPO)
        raise SystemExit(2)
    # Targets with stand-ins for the third-party encoders compile the library with the compressed formats.
    defs = []
    tag = ''
    if opts.get('codecs'):
        defs = ['-DCUTTLEFISH_HAS_%s=1' % c for c in ('S3TC', 'ETC', 'ASTC', 'PVRTC')] + ['-I' + VERIF + '/shim/codecs']
        tag = 'codecs-'
    rs = sha(repo_files(), repr((COMMON, VARIANTS, REPO)))
    d = os.path.join(BUILD, 'r-' + rs)
    if not os.path.isdir(d):
        # Keep only the latest few trees.
        old = sorted(glob.glob(BUILD + '/r-*'), key=os.path.getmtime)
        for o in old[:-2]:
            shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d)
    os.utime(d)
    jobs, objs = [], []
    libvariant = opts.get('libvariant', variant)
    lcxx, lcflags, _ = VARIANTS[libvariant]
    for s in lib_cpp:
        ch = sha(glob.glob(VERIF + '/shim/codecs/*'))[:8] + '-' if defs else ''
        o = os.path.join(d, '%s-%s%s%s.o' % (libvariant, tag, ch, os.path.basename(s)[:-4]))
        objs.append(o)
        jobs.append((o, [lcxx] + lcflags + defs + COMMON + ['-c', s]))
    if tool:
        for s in sorted(glob.glob(REPO + '/tool/*.cpp')):
            o = os.path.join(d, '%s-%stool-%s.o' % (libvariant, tag, os.path.basename(s)[:-4]))
            objs.append(o)
            embed = ['-Dmain=cuttlefish_tool_main'] if tool == 'embed' else []
            jobs.append((o, [lcxx] + lcflags + defs + COMMON + embed + ['-c', s]))
    hdrs = glob.glob(VERIF + '/src/*.h') + (glob.glob(VERIF + '/shim/codecs/*') if defs else [])
    hobjs = []
    hflags = opts.get('hflags', cflags)
    for s in srcs:
        p = os.path.join(VERIF, 'src', s)
        sflags = opts.get('srcflags', {}).get(s, hflags)
        hs = sha([p] + hdrs, repr((sflags, defs)))
        o = os.path.join(d, 'h-%s-%s-%s.o' % (variant, os.path.basename(s).split('.')[0], hs))
        hobjs.append(o)
        jobs.append((o, [opts.get('hcxx', cxx)] + sflags + defs + COMMON + ['-c', p]))
    compile_all(jobs)
    key = sha(hobjs, repr(lflags + libs))
    out = os.path.join(d, '%s-%s' % (target, key))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        run([opts.get('lcxx', cxx)] + lflags + hobjs + objs + ['-o', tmp] + libs +
            ['-lfreeimage', '-lpthread', '-ldl'])
        os.rename(tmp, out)
    return out


if __name__ == '__main__':
    targets = [p for t in sys.argv[1:] for p in [t] + PARTS.get(t, [])]
    for t in targets:
        # Where a tree's codec sources use what the stand-in encoders lack, a check of which they are only a part
        # runs without them.
        fallback = (TARGETS[t] + ({},))[4].get('fallback')
        try:
            out = build(t)
        except SystemExit:
            if not fallback and not (TARGETS[t] + ({},))[4].get('optional'):
                raise
            out = None
        if not out and not fallback:
            sys.stderr.write('%s is left out\n' % t)
            continue
        if not out:
            sys.stderr.write('%s is built without the compressed formats\n' % t)
            out = build(fallback)
        print(out)
