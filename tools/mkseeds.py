#!/usr/bin/env python3
"""Writes and tries out the planted changes of /verif/seeded.

mkseeds.py write [ID...]  writes seeded/<ID>/ from tools/seeds/*.py
mkseeds.py try [ID...]    for each: demo on the unchanged tree, then with the
                          patch applied to /repo: build, tests, demo, check
The definitions (S.append(...)) give the edits, a demonstration in C or Python,
and the property.  /repo is restored after each one.
"""
import glob, json, os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'

def load():
    S = []
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'S': S})
    ids = [s['id'] for s in S]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return S

SH_C = '''#!/bin/bash
# Run in the repository after it was built: exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -O1 -w -fopenmp -DDSFMT_MEXP=19937 -DPARALLEL -I/opt/vp/cmake/include -Ixcsf -I"$d" "$d/demo.c" \\
    _build/repo/xcsf/libxcs.a -ldSFMT-19937 -lcjson -lm -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
SH_PY = '''#!/bin/bash
# Run in the repository after it was built: exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/_build/repo" PYTHONDONTWRITEBYTECODE=1
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cd "$t" && timeout 250 /opt/vp/venv/bin/python "$d/demo.py"
'''

def apply_edits(s):
    for path, old, new in s['edits']:
        p = R + '/' + path
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit(f"{s['id']}: {path}: {t.count(old)} matches of {old!r}")
        open(p, 'w').write(t.replace(old, new))

def git(*a):
    return subprocess.run(['git', '-C', R, *a], check=True, capture_output=True, text=True).stdout

def restore():
    git('checkout', '--', '.')

def write(s):
    assert not git('status', '--porcelain').strip(), '/repo is not clean'
    try:
        apply_edits(s)
        patch = git('diff')
    finally:
        restore()
    d = f"{V}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(patch)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    if 'c' in s:
        open(d + '/demo.c', 'w').write('#include "demo.h"\n' + s['c'].lstrip('\n'))
        shutil.copy(V + '/tools/seeds/demo.h', d + '/demo.h')
        open(d + '/demo.sh', 'w').write(SH_C)
    else:
        open(d + '/demo.py', 'w').write(s['py'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH_PY)
    os.chmod(d + '/demo.sh', 0o755)

def build():
    return subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True, cwd=R)

def demo(d):
    # its folder lies elsewhere when it counts
    t = '/tmp/seed-demo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    try:
        return subprocess.run(['bash', t + '/demo.sh'], capture_output=True, text=True, cwd=R, timeout=300)
    finally:
        shutil.rmtree(t, ignore_errors=True)

def trial(ids, check=True):
    assert not git('status', '--porcelain').strip(), '/repo is not clean'
    build()
    clean = {i: demo(f'{V}/seeded/{i}') for i in ids}
    for i in ids:
        d = f'{V}/seeded/{i}'
        prop = json.load(open(d + '/meta.json'))['property']
        res = [f'clean demo {clean[i].returncode}']
        if clean[i].returncode:
            res.append(repr((clean[i].stdout + clean[i].stderr)[-300:]))
        git('apply', d + '/patch.diff')
        try:
            out = '/tmp/seed-tests.json'
            subprocess.run(['bash', '/opt/vp/test.sh', out], capture_output=True, cwd=R)
            r = json.load(open(out))
            res.append(f"tests {len(r['passed'])}/{len(r['passed']) + len(r['failed'])}")
            q = demo(d)
            res.append(f'patched demo {q.returncode}: {q.stdout.strip()[-100:]}')
            if check:
                t = time.time()
                env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
                k = subprocess.run(['python3', V + '/run.py', prop, 'quick'], capture_output=True, text=True, cwd=V, env=env)
                caught = k.returncode == 1 and f'VIOLATION property={prop} ' in k.stdout
                res.append(f"check {'CAUGHT' if caught else 'MISSED rc=%d' % k.returncode} {time.time() - t:.0f}s")
                res += [l.strip()[:140] for l in k.stdout.split('\n') if l.startswith('  ')][:1]
        finally:
            restore()
        print(i, prop, ' | '.join(res), flush=True)
    build()

if __name__ == '__main__':
    S = load()
    want = sys.argv[2:]
    sel = [s for s in S if not want or any(s['id'].startswith(w) for w in want)]
    if sys.argv[1] == 'write':
        for s in sel:
            write(s)
        print(len(sel), 'written')
    else:
        if sys.argv[1] == 'new':
            sel = [s for s in S if not os.path.exists(f"{V}/seeded/{s['id']}/patch.diff")] if not want else sel
            for s in sel:
                write(s)
        trial([s['id'] for s in sel])
