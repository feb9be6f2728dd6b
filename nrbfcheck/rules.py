"""The analyses behind the checks. Each returns findings tagged with properties."""
import time

from .dom import ZERO, Node
from .interp import RESULT, Split, Undecided
from .units import Anchor
from .walk import Analysis, W
from . import progress
from . import spec as S


class Report:
    def __init__(self, name):
        self.name = name
        self.findings = []
        self.undecided = []
        self.notes = []
        self.stats = {}

    def add(self, an):
        self.findings += an.findings
        self.undecided += sorted(set(an.undecided))
        self.notes += sorted(an.notes)
        for k, v in vars(an.stats).items():
            self.stats[k] = self.stats.get(k, 0) + v


def panic(an, fr, site, msg, x, w):
    an.report({'C01'}, 'a panic can be reached: %s' % (msg if isinstance(msg, str) else str(msg)), x, w,
              span=site, fn=fr.body['path'] if fr else None)


def reached(U, I, an, rep, f):
    done = set()
    n = 0
    for fr, site, msg, st in I.panics:
        key = (fr.inst if fr else None, site, str(msg))
        if key in done:
            continue
        n += 1
        if n > 2000:
            rep.undecided.append('many panics in %s' % f['path'])
            break
        w = W(an, st, ZERO)
        x = an.feasible(st.copy(), w)
        if x is None:
            continue
        done.add(key)
        yield fr, site, msg, x, w


def general(st):
    """Is the state one of any iteration of a loop?"""
    f = st.facts
    return any(has_phi(x) for x in list(f.lins) + list(f.dom) + list(f.nes) + list(f.bools))


_phi = {}


def has_phi(x):
    if isinstance(x, tuple):
        return any(has_phi(y) for y in x)
    if not isinstance(x, Node):
        return False
    r = _phi.get(x)
    if r is None:
        if x.tag == 'atom':
            k = x.a[2]
            r = k[0] == 'phi' or any(has_phi(y) for y in k)
        elif x.tag == 'loopid':
            r = False
        else:
            r = any(has_phi(y) for y in x.a)
        _phi[x] = r
    return r


def first_iterations(U, I, an, rep, f):
    if I.entry is None:
        return {}
    inst, args, st = I.entry
    saved = I.panics, I.loops, I.early, I.reserved
    r = {}
    for n in (1, 2):
        I.panics, I.loops, I.early, I.reserved = [], {}, [], []
        I.bounded, I.budget = n, time.time() + 60
        try:
            I.call_inst(None, st.copy(), inst, list(args), None)
        except (Undecided, Split):
            pass
        I.bounded = 0
        for fr, site, msg, x, w in reached(U, I, an, rep, f):
            r.setdefault((fr.inst if fr else None, site, str(msg)), (x, w))
    I.panics, I.loops, I.early, I.reserved = saved
    return r


def panics(rep, U, I, f, level=None):
    """Every panic the abstract interpretation can reach is a finding; so is every loop or recursion without progress."""
    progress.check(rep, U, I, f, level)
    an = Analysis(U, I, f['path'], f['span'])
    open_ = []
    for fr, site, msg, x, w in reached(U, I, an, rep, f):
        if general(x):
            open_.append((fr, site, msg, x, w))
        else:
            panic(an, fr, site, msg, x, w)
    if open_:
        # reached after a loop, of which only its invariants are known: is it so after its first iterations?
        seen = first_iterations(U, I, an, rep, f)
        for fr, site, msg, x, w in open_:
            y = seen.get((fr.inst if fr else None, site, str(msg)))
            if y is not None:
                panic(an, fr, site, msg, *y)
            else:
                rep.undecided.append('a panic after a loop in %s (%s): %s' % (fr.body['path'] if fr else f['path'], site, msg))
    rep.add(an)
    rep.stats['blocks'] = rep.stats.get('blocks', 0) + len(I.visited)
    rep.covered = sorted({U.P.I[i]['path'] for i, _b in I.visited})


def fn_by_type(U, suffix):
    """Function `mod::Type::parse`, wherever in the module the type is defined."""
    mod, ty, m = suffix.rsplit('::', 2)
    r = [f for b, fs in U.by_bare.items() for f in fs
         if b.endswith('%s::%s' % (ty, m)) and (b.startswith(mod + '::') or '::%s::' % mod in b)
         and b.split('::')[-2] == ty]
    if len(r) == 1:
        return r[0]
    raise Anchor('function %s: %d candidates' % (suffix, len(r)))


def record_unit(U, suffix):
    """One record parser against its specification."""
    spec, what, tags = S.RECORDS[suffix]
    rep = Report('record ' + what)
    f = fn_by_type(U, suffix)
    I = U.interp(cut_lps=not suffix.endswith('LengthPrefixedString::parse'))
    from .interp import new_state
    body = U.P.I[f['inst']]
    st = new_state()
    args = []
    for i in range(body['argc']):
        ty = body['locals'][i + 1]
        t = U.T[ty]
        if t['k'] == 'ref' and U.T[t['to']]['k'] == 'slice':
            args.append(U.input())
        else:
            args.append(I.make_sym(st, ty, 'arg', i))
    outs = U.run(I, f, list(args), st)
    an = Analysis(U, I, f['path'], f['span'])
    tags = frozenset(tags | {'C03'})

    def sp(w):
        w.arg = lambda i: args[i]
        return spec(w)

    for v, s in outs:
        check_outcome(an, I, v, s, sp, ZERO, tags, what)
    rep.add(an)
    rep.stats['outcomes'] = len(outs)
    rep.stats['unmodelled'] = sorted(I.unknown)
    panics(rep, U, I, f)
    return rep


def check_outcome(an, I, v, s, spec, pos, tags, what):
    v = I.deep(s, v)
    if v.tag != 'adt' or v.a[0] != RESULT:
        raise Undecided('outcome of %s' % what)
    if v.a[1] == 0:
        t = I.res(s, v.a[2][0])
        w = I.res(s, t.a[0][0])
        if w.tag != 'wire' or w.a[0] is not an.base:
            raise Undecided('rest of %s' % what)
        an.accept_path(s, pos, spec, t.a[0][1], tags, what, newpos=w.a[1])
    else:
        e = I.res(s, v.a[2][0])
        variant = e.a[1] if e.tag == 'adt' else None
        an.reject_path(s, pos, spec, e, tags, what, variant=variant)
