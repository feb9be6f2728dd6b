#!/usr/bin/env python3
"""Writes the planted bugs of /verif/seeded from the descriptions in tools/seeds/*.txt (see there for the form)."""
import json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
S = os.environ.get('SEEDREPO', '/tmp/seedrepo')
COMMON = open(H + '/seedkit/common.rs').read()
ALLOC = open(H + '/seedkit/alloc.rs').read()
def sh(*c): return subprocess.run(c, cwd=S, stdout=subprocess.PIPE, text=True, check=True).stdout
only = sys.argv[1:]
for fn in sorted(os.listdir(H + '/seeds')):
    i = fn[:-4]
    if only and i not in only: continue
    t = open(H + '/seeds/' + fn).read()
    head, *parts = re.split(r'^=== ', t, flags=re.M)
    meta = dict(l.split(': ', 1) for l in head.strip().split('\n'))
    sh('git', 'checkout', '-q', '.')
    body = ''
    for p in parts:
        k, rest = p.split('\n', 1)
        k = k.strip()
        if k.startswith('edit'):
            path = S + '/' + k.split()[1]
            old, new = rest.split('\n--->\n')
            new = new.rstrip('\n'); old = old.strip('\n')
            s = open(path).read()
            if s.count(old) != 1: sys.exit('%s: %d matches of %r' % (i, s.count(old), old))
            open(path, 'w').write(s.replace(old, new))
        else:
            body = rest
    diff = sh('git', 'diff')
    sh('git', 'checkout', '-q', '.')
    # an edit counts if it removes or changes a line of the original repository
    orig = False
    for p in {k.split()[1] for k in (p.split('\n', 1)[0] for p in parts) if k.startswith('edit')}:
        base = set(subprocess.run(['git', 'show', '3a77a76:' + p], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.split('\n'))
        orig |= any(l[1:] in base and l[1:].strip() for l in diff.split('\n') if l.startswith('-') and not l.startswith('---'))
    if not orig: print(i, 'WARNING: changes no line of the original repository')
    d = V + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    demo = open(H + '/seedkit/demo.sh').read()
    if meta.get('serde') == 'off': demo = demo.replace(', features = ["serde"]', '')
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    body = re.sub(r'^ALLOC$', lambda _: ALLOC, body, flags=re.M)
    open(d + '/main.rs', 'w').write(COMMON + '\n' + body)
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(d + '/meta.json', 'w'), indent=1)
