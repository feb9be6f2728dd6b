#!/usr/bin/env python3
"""Edits that keep the behaviour: refactor.py [-s] IDS... applies tools/refactors/ID.txt to a scratch copy of /repo, runs
its tests (unless -s) and all checks, which have to stay quiet."""
import os, re, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
S = '/tmp/refrepo'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(S):
    sh('git clone -q /repo %s && cp -a /repo/Cargo.lock /repo/target %s/' % (S, S))
sh('git checkout -q . && git pull -q', cwd=S)
a = sys.argv[1:]
skip = '-s' in a
a = [x for x in a if x != '-s'] or sorted(x[:-4] for x in os.listdir(H + '/refactors'))
for i in a:
    sh('git checkout -q .', cwd=S)
    for p in re.split(r'^=== ', open(H + '/refactors/%s.txt' % i).read(), flags=re.M)[1:]:
        k, rest = p.split('\n', 1)
        path = S + '/' + k.split()[1]
        old, new = rest.split('\n--->\n')
        new = new.rstrip('\n'); old = old.strip('\n')
        s = open(path).read()
        if s.count(old) != 1: sys.exit('%s: %d matches of %r' % (i, s.count(old), old))
        open(path, 'w').write(s.replace(old, new))
    t = ''
    if not skip:
        r = sh('cargo test --workspace --all-features --offline --no-fail-fast 2>&1', cwd=S, env=dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=S + '/target'))
        if 'FAILED' in r.stdout or re.search('^error', r.stdout, re.M):
            t = 'TESTS FAIL ' + '\n'.join(l for l in r.stdout.split('\n') if 'FAILED' in l or 'error' in l or '-->' in l)[:600]
    r = sh('./check.py all -v', cwd=V, env=dict(os.environ, NRBF_REPO=S))
    und = sorted({l.strip()[:260] for l in r.stdout.split('\n') if 'undecided:' in l or (' undecided ' in l and not l.startswith('property='))})
    vio = sorted({l for l in r.stdout.split('\n') if l.startswith('VIOLATION')})
    what = sorted({l[:260] for l in r.stdout.split('\n') if ' (src/' in l})
    print('%-24s exit %d, %d violations, %d undecided %s' % (i, r.returncode, len(vio), len(und), t), flush=True)
    for l in what[:6] + und[:4]: print('     ', l)
    sh('git checkout -q .', cwd=S)
