#!/usr/bin/env python3
"""Decides one property of /repo's current source: check.py ID [ID...] [--thorough]"""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from nrbfcheck import build, props, walk  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))


class OutOfTime(BaseException):
    pass


def out_of_time(*_):
    raise OutOfTime('the time for this check ran out')


def finding(f):
    return {'tags': sorted(f.tags), 'fn': f.fn, 'what': f.what, 'span': str(f.span), 'detail': f.detail}


def run_job(job, deadline):
    t0 = time.time()
    r = {'job': ' '.join(map(str, job)), 'findings': [], 'stats': {}, 'notes': [], 'undecided': []}
    walk.Budget.start, walk.Budget.live = None, []
    try:
        signal.signal(signal.SIGALRM, out_of_time)
        signal.alarm(max(1, int(deadline - t0)))
        rep = props.run(job)
        signal.alarm(0)
        r['findings'] = [finding(f) for f in rep.findings]
        r['stats'], r['notes'] = rep.stats, [str(n) for n in rep.notes]
        r['undecided'] = [str(n) for n in getattr(rep, 'undecided', [])]
    except props.SOFT as e:
        r['undecided'].append('%s: %s' % (type(e).__name__, e))
    except RecursionError as e:
        r['undecided'].append('RecursionError: %s' % e)
    except OutOfTime as e:
        r['undecided'].append(str(e))
    except Exception as e:  # an engine error on unexpected code is no verdict
        r['undecided'].append('%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)
    if r['undecided'] and not r['findings']:
        # what was found before the analysis stopped stays found
        r['findings'] = [finding(f) for a in walk.Budget.live for f in a.findings]
    r['wall_s'] = round(time.time() - t0, 2)
    return r


def known_findings():
    r = {}
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p):
        l = l.strip()
        if l.startswith('known: '):
            d = json.loads(l[len('known: '):])
            r[(d['property'], d['fn'], d['what'])] = d
    return r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    verbose = '-v' in sys.argv
    if args == ['all']:
        args = [p for p in props.PROPS]
    t0 = time.time()
    jobs = []
    for p in args:
        for j in props.PROPS[p]['jobs'](tier):
            if j not in jobs:
                jobs.append(j)
    try:
        props.prepare(jobs)
    except build.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    jobs = props.order(jobs)
    results = {}
    limit = 780 if tier == 'quick' else 7200
    walk.Budget.known = {k[1:] for k in known_findings()}
    walk.Budget.quiet = 400 if tier == 'quick' else 7000
    n = int(os.environ.get('NRBF_JOBS', os.cpu_count() or 4))
    with cf.ProcessPoolExecutor(n, mp_context=mp.get_context('fork')) as ex:
        for j, r in zip(jobs, ex.map(run_job, jobs, [t0 + limit] * len(jobs))):
            results[j] = r
            if verbose:
                print('  %6.1fs %s %s%s' % (r['wall_s'], r['job'], r['stats'], ''.join(
                    '\n        UNDECIDED ' + u[:1200] for u in r['undecided'])))
    known = known_findings()
    rc = 0
    for p in args:
        mine = [results[j] for j in props.PROPS[p]['jobs'](tier)]
        rc |= report(p, tier, mine, known, time.time() - t0, verbose)
    return rc


def report(p, tier, results, known, wall, verbose):
    info = props.PROPS[p]
    seen, bad, old = {}, [], []
    for r in results:
        for f in r['findings']:
            if p not in f['tags']:
                continue
            k = (p, f['fn'], f['what'])
            if k in seen:
                continue
            seen[k] = f
            (old if k in known else bad).append(f)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    stats = {}
    for r in results:
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)):
                stats[k] = stats.get(k, 0) + v
    undecided = ['%s: %s' % (r['job'], u) for r in results for u in r['undecided']]
    cov = {'explanation': info['explanation'], 'rule': info['rule'], 'analysed': [
        {'unit': r['job'], 'wall_s': r['wall_s'], **{k: v for k, v in r['stats'].items()}} for r in results],
        'totals': stats, 'undecided': undecided[:40], 'obligations': int(stats.get('obligations', 0)),
        'notes': [n for r in results for n in r['notes']][:60]}
    with open(os.path.join(ev, p + '.json'), 'w') as f:
        json.dump({'property': p, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
                   'level': info['level'], 'coverage': cov, 'assumptions': info.get('assumptions', []),
                   'wall_s': round(wall, 2), 'violations': len(bad),
                   'findings': [{k: f[k] for k in ('fn', 'what', 'span', 'tags')} for f in bad + old]}, f, indent=1)
    for f in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (p, f['fn'], f['what']))
    for f in bad:
        h = hashlib.sha1(('%s %s %s' % (p, f['fn'], f['what'])).encode()).hexdigest()[:10]
        path = os.path.join(ev, 'violation-%s-%s.txt' % (p, h))
        with open(path, 'w') as o:
            o.write('property %s\nfunction %s\nat %s\nrule: %s\n\npath condition:\n%s\n' % (
                p, f['fn'], f['span'], f['what'], f['detail'].replace('; ', '\n')))
        print('%s (%s): %s' % (f['fn'], f['span'], f['what']))
        print('VIOLATION property=%s replay=%s' % (p, path))
    if verbose or undecided:
        print('property=%s units=%d obligations=%s violations=%d known=%d undecided=%d %.1fs' % (
            p, len(results), stats.get('obligations', 0), len(bad), len(old), len(undecided), wall))
    for u in undecided[:10]:
        print('  undecided: ' + u[:300].replace('\n', ' '))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
