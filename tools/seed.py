#!/usr/bin/env python3
"""Tests a planted bug: seed.py ID [checks...] applies /verif/seeded/ID/patch.diff to a scratch copy of /repo, runs its
tests and the demonstration with and without it, and the checks of its property (or those given)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('SEEDREPO', '/tmp/seedrepo')
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if os.path.isdir(S):
        sh('git checkout -q . && git clean -fdq', cwd=S)
        sh('git pull -q', cwd=S)
        r = sh('git rev-parse HEAD', cwd=S).stdout
        if r == sh('git rev-parse HEAD', cwd='/repo').stdout:
            return
        shutil.rmtree(S)
    sh('git clone -q /repo %s && cp -a /repo/Cargo.lock /repo/target %s/' % (S, S))
def one(i, checks, skip):
    d = os.path.join(V, 'seeded', i)
    m = json.load(open(d + '/meta.json'))
    fresh()
    out = []
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=S + '/target')
    ok = True
    if not skip:
        r = sh(d + '/demo.sh', cwd=S)
        out.append('clean demo %d' % r.returncode)
        ok &= r.returncode == 0
        if r.returncode: print(r.stdout[-1500:])
    r = sh('git apply %s/patch.diff' % d, cwd=S)
    if r.returncode:
        print(i, 'PATCH FAILS', r.stdout); return False
    if not skip:
        r = sh('cargo test --workspace --all-features --offline --no-fail-fast 2>&1 | grep -E "^test result|FAILED|^error|panicked" | sort | uniq -c', cwd=S, env=env)
        bad = 'FAILED' in r.stdout or 'error' in r.stdout
        out.append('tests %s' % ('FAIL ' + r.stdout[-600:] if bad else 'pass'))
        ok &= not bad
        r = sh(d + '/demo.sh', cwd=S)
        out.append('patched demo %d' % r.returncode)
        ok &= r.returncode != 0
        if 'error' in r.stdout and 'could not compile' in r.stdout: out.append('DEMO DOES NOT COMPILE' + r.stdout[-800:]); ok = False
    caught = []
    for c in checks or [m['property']]:
        r = sh('./check.py %s' % c, cwd=V, env=dict(os.environ, NRBF_REPO=S))
        caught.append('%s:%d' % (c, r.returncode))
        lines = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or ': ' in l]
        for l in lines[:4]: print('      ', l[:220])
    print('%-28s %s  %s' % (i, 'VALID' if ok else 'INVALID', ' | '.join(out)), ' CHECK', caught, flush=True)
    sh('git checkout -q .', cwd=S)
    return ok
a = sys.argv[1:]
skip = '-s' in a
a = [x for x in a if x != '-s']
ids = sorted(os.listdir(V + '/seeded')) if a[:1] == ['all'] else a[:1]
for i in ids: one(i, a[1:] if a[1:] != ['allchecks'] else ['all'], skip)
