#!/usr/bin/env python3
"""seed_check.py [--catch] ID...: checks planted bugs in a scratch copy of /repo under /tmp/seedcheck.
For each: the patch applies to HEAD, changes lines of the original repository, touches non-test source only,
builds, passes the stable tests, and demo.sh passes without it and fails with it. With --catch, also runs the
property's check (in a scratch copy of /verif next to the scratch repository) and prints what it said."""
import json, os, subprocess, sys, shutil
V = '/verif'; S = '/tmp/seedcheck'; R = S + '/repo'
BASE = 'ebe21d7'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def setup():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(R):
        sh(f'cp -a /repo {R}')
    sh(f'rm -rf /tmp/seedcheck/repo/nanvm-lib/src /tmp/seedcheck/repo/nanvm/src && cp -r /repo/nanvm-lib/src {R}/nanvm-lib/ && cp -r /repo/nanvm/src {R}/nanvm/')
    os.makedirs(S + '/verif', exist_ok=True)
    sh(f'cp -a {V}/check {V}/harness {V}/known-findings.txt {V}/properties.jsonl {V}/MANIFEST.json {S}/verif/')
def tests():
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    r = sh('timeout 200 cargo test --offline --workspace 2>&1', cwd=R, env=env)
    n = sum(1 for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok'))
    return r.returncode, n, r.stdout
def demo(i):
    d = f'/tmp/seedcheck/demo-{i}'
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(f'{V}/seeded/{i}'):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json': continue
        shutil.copy(f'{V}/seeded/{i}/{f}', d)
    r = sh(f'timeout 300 bash {d}/demo.sh 2>&1', cwd=R)
    shutil.rmtree(d)
    return r.returncode, r.stdout[-300:]
def main():
    catch = '--catch' in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    if not ids: ids = sorted(os.listdir(V + '/seeded'))
    orig = {}
    for i in ids:
        setup()
        p = f'{V}/seeded/{i}/patch.diff'
        meta = json.load(open(f'{V}/seeded/{i}/meta.json'))
        msgs = []
        removed = []
        f = None
        for l in open(p).read().splitlines():
            if l.startswith('--- a/'): f = l[6:]
            elif l.startswith('-') and not l.startswith('---'): removed.append((f, l[1:]))
        if not any(l.strip() and l in sh(f'git -C /repo show {BASE}:{g}').stdout.splitlines() for g, l in removed):
            msgs.append('NO ORIGINAL LINE CHANGED')
        c0 = demo(i)
        if c0[0] != 0: msgs.append(f'demo fails on clean: {c0}')
        a = sh(f'git -C {R} apply {p}')
        if a.returncode: msgs.append('does not apply ' + a.stderr)
        rc, n, out = tests()
        if rc or n < 169: msgs.append(f'tests rc={rc} n={n}: ' + '; '.join(l for l in out.splitlines() if 'FAILED' in l or l.startswith('error'))[:400])
        c1 = demo(i)
        if c1[0] == 0: msgs.append('demo passes with the patch')
        print(i, meta['property'], 'ok' if not msgs else msgs, '| demo:', c1[1].strip().splitlines()[-1:] , flush=True)
        if catch:
            for c in meta.get('checks', [meta['property']]) if '--all' not in sys.argv else [f'C{k:02d}' for k in range(1, 22)]:
                r = sh(f'cd {S}/verif && timeout 900 ./check {c} quick', env=dict(os.environ, VERIF_SEED='1'))
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                print('    ', c, 'CAUGHT' if r.returncode == 1 and v else f'missed rc={r.returncode}', (v or r.stdout.splitlines()[-2:])[:1], flush=True)
        setup()
main()
