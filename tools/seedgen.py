#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from the definitions in seeds_*.py and confirm each:
   seedgen.py [--force] [ID...]   (scratch copies under /tmp/seedw, removed afterwards)"""
import sys, os, subprocess, shutil, json, concurrent.futures as cf
V = '/verif'; R = '/repo'; BASE = '61ab32a'; W = '/tmp/seedw'
STUN = 'stun crypto/openssl net util'; CLIENT = STUN; NET = 'net util'; ICE = 'ice net util'; RTP = 'rtp util'; NONE = ''
SEEDS = {}
def S(id, prop, file, edits, needs, breaks, demo, dirs=NONE, inc=(), flags=''):
    assert id not in SEEDS, id
    if isinstance(file, str): edits = [(file, a, b) for a, b in edits]
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, dirs=dirs, inc=inc, flags=flags)
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
DEMO_SH = '''#!/bin/bash
# Run in the repository root: exit 0 when the property holds in this demonstration.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
F="-std=gnu++20 -w -O1 %(flags)s -I$d -I$d/shim -I$r/src"
find_src() { for x in %(dirs)s; do find "$r/src/$x" -name '*.cpp'; done | sort -u | grep -v -e util_binary_view.cpp -e util_error.cpp; }
find_src | xargs -r -P 8 -I@ sh -c 'g++ '"$F"' -c "@" -o "'"$t"'/$(echo "@" | tr / _).o"' || { echo "does not build"; exit 1; }
g++ $F -c "$d/demo.cpp" -o "$t/demo.o" && g++ $F "$t"/*.o -o "$t/demo" -lcrypto -lpthread -ldl || { echo "does not build"; exit 1; }
timeout 60 "$t/demo"
'''
def make(s):
    id = s['id']; w = f'{W}/{id}'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    out = f'{V}/seeded/{id}'
    try:
        sh(f'git clone -q --shared {R} {w}/repo')
        for f, a, b in s['edits']:
            p = f'{w}/repo/{f}'; t = open(p).read()
            if t.count(a) != 1: return id, f'text found {t.count(a)} times in {f}: {a[:60]!r}'
            open(p, 'w').write(t.replace(a, b))
            old = sh(f'git -C {R} show {BASE}:{f}').stdout.split('\n')
        diff = sh(f'git -C {w}/repo diff').stdout
        # removed lines are lines of the original repository
        for f in {e[0] for e in s['edits']}:
            old = set(sh(f'git -C {R} show {BASE}:{f}').stdout.split('\n'))
            d = sh(f'git -C {w}/repo diff -U0 -- {f}').stdout.split('\n')
            rem = [l[1:] for l in d if l.startswith('-') and not l.startswith('---')]
            new = [l for l in rem if l not in old]
            if new: return id, f'touches lines that are not original: {new[:2]}'
            if not rem: print(f'   note {id}: only adds lines in {f}')
        tmp = f'{w}/out'; os.makedirs(tmp)
        open(f'{tmp}/patch.diff', 'w').write(diff)
        open(f'{tmp}/demo.cpp', 'w').write(''.join(f'#include "{i}"\n' for i in ('demo.hpp',) + tuple(s['inc'])) + s['demo'].strip('\n') + '\n')
        shutil.copy(f'{V}/tools/seedlib/demo.hpp', tmp)
        if any(i in ('cl.hpp', 'stunlib.hpp', 'stunref.hpp', 'refcrypto.hpp') for i in s['inc']):
            for h in ('refcrypto.hpp', 'stunref.hpp', 'stunlib.hpp'): shutil.copy(f'{V}/harness/{h}', tmp)
        for h in ('nodejs.hpp', 'faultssl.hpp'):
            if h in s['inc']: shutil.copy(f'{V}/harness/{h}', tmp)
        if 'nodejs.hpp' in s['inc']:
            for h in ('vh.hpp', 'netref.hpp'): shutil.copy(f'{V}/harness/{h}', tmp)
        if 'cl.hpp' in s['inc']: shutil.copy(f'{V}/tools/seedlib/cl.hpp', tmp)
        shutil.copytree(f'{V}/shim', f'{tmp}/shim')
        open(f'{tmp}/demo.sh', 'w').write(DEMO_SH % dict(flags=s['flags'], dirs=s['dirs'] or '""')); os.chmod(f'{tmp}/demo.sh', 0o755)
        if not s['dirs']: t = open(f'{tmp}/demo.sh').read().replace('for x in ""; do', 'for x in; do'); open(f'{tmp}/demo.sh', 'w').write(t)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{tmp}/meta.json', 'w'), indent=1)
        r = sh(f'{tmp}/demo.sh', cwd=f'{w}/repo')
        if r.returncode == 0: return id, 'demonstration passes with the change\n' + r.stdout[-500:]
        if 'does not build' in r.stdout: return id, 'demonstration does not build\n' + r.stderr[:1500]
        bad = r.stdout.strip().split('\n')[-1] + r.stderr[-200:]
        sh(f'git -C {w}/repo checkout -q -- .')
        r = sh(f'{tmp}/demo.sh', cwd=f'{w}/repo')
        if r.returncode != 0: return id, 'demonstration fails without the change\n' + r.stdout[-800:] + r.stderr[-300:]
        # the upstream tests, built on the craftpp stand-in, must still pass
        sh(f'git -C {w}/repo apply {tmp}/patch.diff')
        r = sh(f'bash {V}/tools/upstream.sh {w}/repo {w}/ut')
        if r.returncode != 0: return id, 'upstream tests notice it: ' + (r.stdout + r.stderr)[-600:]
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
        return id, None
    finally:
        shutil.rmtree(w, ignore_errors=True)
def main():
    import glob
    g = dict(globals())
    for f in sorted(glob.glob(f'{V}/tools/seeds_*.py')): exec(compile(open(f).read(), f, 'exec'), g)
    args = [a for a in sys.argv[1:] if not a.startswith('--')]; force = '--force' in sys.argv
    todo = [s for i, s in SEEDS.items() if (i in args if args else (force or not os.path.exists(f'{V}/seeded/{i}/patch.diff')))]
    with cf.ThreadPoolExecutor(3) as ex:
        for id, e in ex.map(make, todo): print('ok  ' if e is None else 'BAD ', id, '' if e is None else e, flush=True)
main()
