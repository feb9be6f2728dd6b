"""Loops: one abstract iteration stands for all of them.

The state at the loop head after k iterations is described by a template: what the loop leaves alone
keeps its value, counters become v0 + c*k, collections that grow become v0 followed by the part the
loop appended, positions become unknowns (phi), everything else is forgotten. Inequalities between
these are found by guessing from the guards and keeping those which every iteration preserves.
"""
import time

from .dom import (Facts, INF, ONE, SEL, ZERO, add, addc, atom, batom, cval, const, dom_vals, is_const, leaves, mk, neg,
                  of_atom, p_b, p_eq, p_ge, p_ne, p_not, rng, scale, show, sub, subst, subst_delta, Node)

UNROLL = 16
DEBUG = False


class Hole:
    __slots__ = ('kind', 'c', 'ty', 'lo', 'hi')

    def __init__(self, kind, c=None, ty=None, lo=0, hi=0):
        self.kind = kind
        self.c = c
        self.ty = ty
        self.lo = lo
        self.hi = hi


class Case:
    __slots__ = ('st', 'events', 'delta', 'app', 'vals')


class LoopRec:
    __slots__ = ('id', 'key', 'k', 'cases', 'holes', 'invs', 'fn', 'head', 'span', 'entry', 'tmpl', 'outs', 'progress',
                 'kctx', 'before')


def facts_key(f):
    return (tuple(sorted(((a.id, d) for a, d in f.dom.items()), key=lambda t: t[0])), tuple(l.id for l in f.lins),
            tuple(sorted(l.id for l in f.nes)), tuple(sorted((a.id, v) for a, v in f.bools.items())),
            tuple(sorted((a.id, l.id) for a, l in f.sub.items())))


def pathkey(p):
    return '/'.join(str(x) for x in p)


def phi(lid, path, k, lo, hi):
    return of_atom(atom(lo, hi, 'phi', lid, pathkey(path), k))


class Gen:
    """Template of the state at the loop head."""

    def __init__(self, I, lid, st0, cells):
        self.I = I
        self.lid = lid
        self.st0 = st0
        self.cells = cells
        self.holes = {}
        self.changed = False

    # ---- building

    def build(self, v, path, k):
        h = self.holes.get(path)
        if h is not None:
            return self.hole_value(h, v, path, k)
        if not isinstance(v, Node) or v.tag == 'atom':
            return v
        if not any(p[:len(path)] == path for p in self.holes):
            return v
        t = v.tag
        if t in ('vec', 'slice'):
            return mk(t, tuple(self.build(x, path + (i,), k) for i, x in enumerate(v.a[0])))
        args = []
        for i, x in enumerate(v.a):
            if isinstance(x, tuple):
                args.append(tuple(self.build(y, path + (i, j), k) if isinstance(y, Node) else y
                                  for j, y in enumerate(x)))
            elif isinstance(x, Node):
                args.append(self.build(x, path + (i,), k))
            else:
                args.append(x)
        return mk(t, *args)

    def seq_len(self, h, path, k):
        if h.c is not None:
            return scale(k, h.c)
        return phi(self.lid, path, k, 0, (1 << 63) - 1)

    def hole_value(self, h, v, path, k):
        if h.kind == 'cnt':
            return add(v, scale(k, h.c))
        if h.kind == 'phi':
            return phi(self.lid, path, k, h.lo, h.hi)
        if h.kind == 'seq':
            lp = mk('Lp', self.lid, pathkey(path), ZERO, self.seq_len(h, path, k))
            if v.tag == 'map':
                return mk('map', v.a[0], v.a[1], v.a[2] + (lp,))
            return mk(v.tag, v.a[0] + (lp,))
        if h.kind == 'map':
            v = maps(v)
            b = v.a[1]
            name = b.a[0] if isinstance(b, Node) and b.tag == 'mapbase' else '?'
            return mk('map', v.a[0], mk('mapbase', name, mk('lp', self.lid, pathkey(path), k)), ())
        if h.kind == 'bool':
            return p_b(batom('phi', self.lid, pathkey(path), k))
        if h.kind == 'any':
            if h.ty is not None:
                return self.I.make_sym(self.st0, h.ty, 'phi', self.lid, pathkey(path), k)
            if isinstance(v, Node) and v.tag in ('vec', 'slice'):
                a = atom(0, INF, 'seq', 'phi', self.lid, pathkey(path), k)
                return mk(v.tag, (mk('Sq', a, of_atom(atom(0, (1 << 63) - 1, 'len', a)), -1),))
            return mk('opq', 'phi', self.lid, pathkey(path), k)
        raise ValueError(h.kind)

    # ---- comparing with what an iteration leaves behind

    def set(self, path, hole):
        self.holes[path] = hole
        # holes inside are subsumed
        for p in [p for p in self.holes if len(p) > len(path) and p[:len(path)] == path]:
            del self.holes[p]
        self.changed = True

    def compare(self, v0, vb, st, path, k, ty, app):
        """vb is the value after the iteration that started with build(v0, path, k)."""
        I = self.I
        h = self.holes.get(path)
        if isinstance(vb, Node):
            vb = I.res(st, vb)
        if h is not None:
            if h.kind == 'cnt':
                want = add(v0, scale(addc(k, 1), h.c))
                if not (isinstance(vb, Node) and vb.tag == 'lin') or st.facts.value(sub(vb, want)) != 0:
                    self.to_phi(path, v0, vb)
            elif h.kind == 'phi':
                if not (isinstance(vb, Node) and vb.tag == 'lin'):
                    self.set(path, Hole('any', ty=ty))
                else:
                    lo, hi = self.clamp(path, *st.facts.range(vb))
                    if lo < h.lo or hi > h.hi:
                        lo, hi = widen(min(lo, h.lo), max(hi, h.hi))
                        self.set(path, Hole('phi', lo=lo, hi=hi))
            elif h.kind == 'seq':
                # before the first iteration nothing has been appended
                cur = v0 if cval(k) == 0 else self.hole_value(h, v0, path, k)
                ok = isinstance(vb, Node) and vb.tag == v0.tag
                if ok and v0.tag == 'map':
                    ok = vb.a[1] is v0.a[1]
                    cp, bp = (cur.a[2], vb.a[2]) if ok else ((), ())
                elif ok:
                    cp, bp = cur.a[0], vb.a[0]
                if ok and bp[:len(cp)] == cp:
                    new = bp[len(cp):]
                    app[path] = new
                    n = I.seq_len(st, new)
                    if h.c is not None and st.facts.value(n) != h.c:
                        self.set(path, Hole('seq', c=None))
                else:
                    self.set(path, Hole('map') if v0.tag == 'map' else Hole('any', ty=ty))
            elif h.kind == 'map':
                if maps(vb) is None:
                    self.set(path, Hole('any', ty=ty))
            elif h.kind == 'bool':
                pass
            return
        cur = self.build(v0, path, k)
        if cur is vb:
            return
        if not isinstance(v0, Node) or not isinstance(vb, Node):
            # booleans
            if (v0 in (True, False) or isinstance(v0, Node) and v0.tag in ('ge', 'eq', 'ne', 'b')):
                self.set(path, Hole('bool'))
            else:
                self.set(path, Hole('any', ty=ty))
            return
        t = v0.tag
        if t in ('ge', 'eq', 'ne', 'b'):
            self.set(path, Hole('bool'))
            return
        if 'ch' in (t, vb.tag) and maps(v0) is not None and maps(vb) is not None:
            self.set(path, Hole('map'))
            return
        if t == 'lin' and vb.tag == 'lin':
            d = st.facts.value(sub(vb, v0))
            if d == 0:
                return
            if cval(k) == 0 and d is not None:
                self.set(path, Hole('cnt', c=d))
            else:
                self.to_phi(path, v0, vb)
            return
        if t != vb.tag:
            self.set(path, Hole('any', ty=ty))
            return
        if t in ('vec', 'slice'):
            p0, pb = v0.a[0], vb.a[0]
            if pb[:len(p0)] == p0:
                new = pb[len(p0):]
                app[path] = new
                n = st.facts.value(I.seq_len(st, new))
                self.set(path, Hole('seq', c=n))
                return
            if len(p0) == len(pb) and all(x is y or x.tag == y.tag == 'E' for x, y in zip(p0, pb)):
                for i, (x, y) in enumerate(zip(p0, pb)):
                    self.compare(x, y, st, path + (i,), k, None, app)
                return
            self.set(path, Hole('any', ty=ty))
            return
        if t == 'map':
            if vb.a[1] is v0.a[1] and vb.a[2][:len(v0.a[2])] == v0.a[2]:
                new = vb.a[2][len(v0.a[2]):]
                app[path] = new
                self.set(path, Hole('seq', c=st.facts.value(I.seq_len(st, new))))
            else:
                self.set(path, Hole('map'))
            return
        if t in ('ch', 'sym', 'opq', 'flt', 'loopid', 'atom', 'Sq', 'Lp', 'fn'):
            self.set(path, Hole('any', ty=ty))
            return
        if t == 'str' and v0.a[0] != vb.a[0] or t == 'it' and v0.a[0] != vb.a[0]:
            self.set(path, Hole('any', ty=ty))
            return
        if t == 'adt' and v0.a[:2] != vb.a[:2]:
            self.set(path, Hole('any', ty=ty))
            return
        if len(v0.a) != len(vb.a):
            self.set(path, Hole('any', ty=ty))
            return
        for i, (x, y) in enumerate(zip(v0.a, vb.a)):
            if isinstance(x, tuple):
                if len(x) != len(y):
                    self.set(path, Hole('any', ty=ty))
                    return
            elif not isinstance(x, Node) and x is not y and x != y and not isinstance(x, bool):
                self.set(path, Hole('any', ty=ty))
                return
            elif isinstance(x, Node) and isinstance(y, Node) and x.tag == 'atom' and x is not y:
                self.set(path, Hole('any', ty=ty))
                return
        for i, (x, y) in enumerate(zip(v0.a, vb.a)):
            if isinstance(x, tuple):
                for j, (p, q) in enumerate(zip(x, y)):
                    if isinstance(p, Node) or isinstance(p, bool):
                        self.compare(p, q, st, path + (i, j), k, self.sub_ty(ty, v0, j), app)
            elif isinstance(x, Node) or isinstance(x, bool):
                self.compare(x, y, st, path + (i,), k, None, app)

    def sub_ty(self, ty, v0, j):
        if ty is None:
            return None
        t = self.I.T[ty]
        if v0.tag == 'adt' and t['k'] == 'adt' and t['path'] == v0.a[0] and t.get('variants'):
            fs = t['variants'][v0.a[1]]['fields']
            return fs[j]['ty'] if j < len(fs) else None
        if v0.tag == 'tup' and t['k'] == 'tuple':
            return t['fields'][j]
        return None

    def to_phi(self, path, v0, vb):
        if isinstance(vb, Node) and vb.tag == 'lin' and isinstance(v0, Node) and v0.tag == 'lin':
            lo = min(rng(v0)[0], rng(vb)[0])
            hi = max(rng(v0)[1], rng(vb)[1])
            h = self.holes.get(path)
            if h is not None and h.kind == 'phi':
                lo, hi = min(lo, h.lo), max(hi, h.hi)
            # ranges come from types: widen to the usual ones
            lo, hi = self.clamp(path, *widen(*self.clamp(path, lo, hi)))
            self.set(path, Hole('phi', lo=lo, hi=hi))
        else:
            self.set(path, Hole('any'))

    def clamp(self, path, lo, hi):
        """Machine integers have at most 64 bits, and positions lie inside an allocation."""
        parent = at_path(self.st0.mem.get(path[0]), path[1:-1]) if len(path) > 1 else None
        if isinstance(parent, Node) and parent.tag == 'wire':
            return max(lo, 0), min(hi, (1 << 63) - 1)
        return max(lo, -(1 << 63)), min(hi, (1 << 64) - 1)

    # ---- values of holes, for invariants

    def hole_lins(self, k, values):
        """{path: (Lin at k, value of the same hole in `values`)} for the integer holes."""
        out = {}
        for path, h in self.holes.items():
            c = path[0]
            v0 = self.st0.mem[c]
            sv = at_path(v0, path[1:])
            if h.kind in ('cnt', 'phi'):
                out[path] = self.hole_value(h, sv, path, k)
            elif h.kind == 'seq' and h.c is None:
                out[path] = self.seq_len(h, path, k)
        return out


def maps(v):
    """A map the value may be, if it is a map in any case."""
    if not isinstance(v, Node):
        return None
    if v.tag == 'map':
        return v
    if v.tag == 'ch':
        r = [maps(x) for x in v.a[1]]
        return None if None in r else r[0]
    return None


def widen(lo, hi):
    for b in (0, -(1 << 7), -(1 << 15), -(1 << 31), -(1 << 63), -(1 << 127)):
        if lo >= b:
            lo = b
            break
    for b in ((1 << 8) - 1, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1, 1 << 70, INF):
        if hi <= b:
            hi = b
            break
    return lo, hi


def at_path(v, path):
    i = 0
    while i < len(path):
        if not isinstance(v, Node):
            return v
        if v.tag in ('vec', 'slice'):
            v = v.a[0][path[i]]
            i += 1
            continue
        x = v.a[path[i]]
        if isinstance(x, tuple):
            if i + 1 >= len(path):
                return x
            v = x[path[i + 1]]
            i += 2
        else:
            v = x
            i += 1
    return v


def after_value(I, gen, path, st, k):
    """Value of an integer hole in the state after the iteration."""
    h = gen.holes[path]
    v = st.mem.get(path[0])
    v0 = gen.st0.mem[path[0]]
    # follow the structure, resolving choices
    v = follow(I, st, v, path[1:])
    if v is None:
        return None
    if h.kind == 'seq':
        sv = at_path(v0, path[1:])
        if sv.tag == 'map':
            n0, nb = I.seq_len(st, sv.a[2]), I.seq_len(st, v.a[2])
        else:
            n0, nb = I.seq_len(st, sv.a[0]), I.seq_len(st, v.a[0])
        return sub(nb, n0)
    return v if isinstance(v, Node) and v.tag == 'lin' else None


def follow(I, st, v, path):
    i = 0
    while True:
        if isinstance(v, Node):
            v = I.res(st, v)
        if i >= len(path):
            return v
        if not isinstance(v, Node):
            return None
        if v.tag in ('vec', 'slice'):
            if path[i] >= len(v.a[0]):
                return None
            v = v.a[0][path[i]]
            i += 1
            continue
        if path[i] >= len(v.a):
            return None
        x = v.a[path[i]]
        if isinstance(x, tuple):
            if i + 1 >= len(path) or path[i + 1] >= len(x):
                return None
            v = x[path[i + 1]]
            i += 2
        else:
            v = x
            i += 1


def run_loop(I, key, st0, body, live, fn=None, span=None):
    """`body(state)` runs one iteration: [(kind, value, state)] with kind back, exit or ret.
    Returns the exits and returns of the whole loop."""
    if live is not None:
        depth, keep = live
        for c in [c for c in st0.mem if isinstance(c[0], int) and c[0] == depth and c[1] not in keep]:
            del st0.mem[c]
    if I.bounded:
        return bounded(I, st0, body)
    I.mute += 1
    try:
        outs0 = body(st0.copy())
    finally:
        I.mute -= 1
    backs = [s for kd, _v, s in outs0 if kd == 'back']
    if not backs:
        if I.mute:
            return outs0
        return body(st0.copy())
    cells = [c for c in st0.mem if any(s.mem.get(c) is not st0.mem[c] for s in backs)]
    cells.sort(key=str)
    lid = mk('loopid', key, tuple(st0.mem[c] for c in cells), facts_key(st0.facts), I.kctx, st0.serial)
    kat = atom(0, (1 << 62), 'k', lid)
    k = of_atom(kat)
    gen = Gen(I, lid, st0, cells)
    tys = {c: cell_type(I, c) for c in cells}
    for s in backs:
        for c in cells:
            if c in s.mem:
                gen.compare(st0.mem[c], s.mem[c], s, (c,), ZERO, tys[c], {})
    invs = None
    kctx0 = I.kctx
    I.kctx = kctx0 + (k,)
    try:
        rounds = 0
        dead = set()
        while True:
            rounds += 1
            if rounds > 14:
                from .interp import Undecided
                raise Undecided('loop template does not stabilise')
            s = start_state(I, gen, st0, k, invs)
            I.mute += 1
            try:
                outs = body(s.copy())
            finally:
                I.mute -= 1
            backs = [x for kd, _v, x in outs if kd == 'back']
            # new cells may be modified only in later iterations
            for c in st0.mem:
                if c not in gen.cells and any(x.mem.get(c) is not s.mem.get(c) for x in backs if c in x.mem):
                    gen.cells.append(c)
                    tys[c] = cell_type(I, c)
                    gen.changed = True
            gen.changed = False
            for x in backs:
                for c in gen.cells:
                    if c in x.mem:
                        gen.compare(st0.mem[c], x.mem[c], x, (c,), k, tys[c], {})
            if DEBUG:
                print('round', rounds, fn, gen.changed, {pathkey(p): (h.kind, h.c) for p, h in gen.holes.items()},
                      [show(p) for p in invs or ()], len(outs))
            if gen.changed:
                invs = None
                continue
            if invs is None:
                invs = candidates(I, gen, st0, s, backs, outs, k, dead)
                if invs:
                    continue
                break
            bad = [p for p in invs if not preserved(I, gen, p, backs, k, kat)]
            if not bad:
                break
            dead.update(bad)
            invs = [p for p in invs if p not in dead]
        # bounded loops are unrolled
        backs_max = max([x.facts.range(k)[1] for x in backs], default=-1)
        if backs_max < UNROLL:
            I.kctx = kctx0
            return unroll(I, st0, body)
        rec = LoopRec()
        rec.id, rec.key, rec.k, rec.holes, rec.invs = lid, key, kat, dict(gen.holes), list(invs or ())
        rec.fn, rec.span, rec.entry, rec.kctx = fn, span, st0, kctx0
        rec.before = backs_max
        s = start_state(I, gen, st0, k, invs)
        rec.tmpl = s
        s = s.copy()
        s.ev('loop', lid, k)
        mark = s.log
        outs = body(s.copy())
        rec.cases = []
        for kd, v, x in outs:
            if kd != 'back':
                continue
            c = Case()
            c.st = x
            c.events = x.events(mark)
            c.delta = x.facts.delta(st0.facts)
            c.app = {}
            for cell in gen.cells:
                if cell in x.mem:
                    gen.compare(st0.mem[cell], x.mem[cell], x, (cell,), k, tys[cell], c.app)
            c.app = {pathkey(p): v for p, v in c.app.items()}
            c.vals = {}
            for path in gen.holes:
                if gen.holes[path].kind in ('cnt', 'phi', 'seq'):
                    av = after_value(I, gen, path, x, k)
                    if av is not None:
                        c.vals[path] = av
            rec.cases.append(c)
        rec.progress = None
        I.loops[lid] = rec
        rec.outs = [(kd, v, x) for kd, v, x in outs if kd != 'back']
        res = []
        for kd, v, x in outs:
            if kd != 'back':
                simplify_parts(I, rec, x)
                res.append((kd, v, x))
        return res
    finally:
        I.kctx = kctx0


def cell_type(I, c):
    if isinstance(c[0], int):
        i = c[0]
        fr = I.frames.get(i)
        if fr is not None and c[1] < len(fr.body['locals']):
            return fr.body['locals'][c[1]]
    return None


def start_state(I, gen, st0, k, invs):
    s = st0.copy()
    for c in gen.cells:
        s.mem[c] = gen.build(st0.mem[c], (c,), k)
    for p in invs or ():
        s.facts.assume(p)
    return s


def bounded(I, st0, body):
    """The first iterations, as they are."""
    res = []
    todo = [st0]
    for i in range(I.bounded + 1):
        nxt = []
        for s in todo:
            if I.budget is not None and time.time() > I.budget:
                from .interp import Undecided
                raise Undecided('time for following loops')
            for kd, v, x in body(s.copy()):
                if kd != 'back':
                    res.append((kd, v, x))
                elif i < I.bounded:
                    nxt.append(x)
        todo = nxt
    return res


def unroll(I, st0, body):
    res = []
    todo = [st0]
    for _ in range(UNROLL + 4):
        nxt = []
        for s in todo:
            for kd, v, x in body(s.copy()):
                if kd == 'back':
                    nxt.append(x)
                else:
                    res.append((kd, v, x))
        todo = nxt
        if not todo:
            return res
        if len(todo) > 500:
            break
    from .interp import Undecided
    raise Undecided('unrolling')


def candidates(I, gen, st0, s, backs, outs, k, dead):
    """Inequalities that hold at the start and may be preserved."""
    hl = gen.hole_lins(k, None)
    kat = k.a[1][0][0]
    cand = []

    def put(l):
        p = p_ge(l)
        if p is True or p is False or p in dead or p in cand:
            return
        z = gen_subst(gen, l, ZERO)
        if z is not None and st0.facts.decide(p_ge(z)) is True:
            cand.append(p)

    holeatoms = set()
    for path, l in hl.items():
        for a, _ in l.a[1]:
            holeatoms.add(a)
    holeatoms.add(kat)
    for path, l in hl.items():
        h = gen.holes[path]
        if h.kind == 'phi':
            v0 = at_path(st0.mem[path[0]], path[1:])
            put(sub(l, v0))
            put(sub(v0, l))
        # positions stay inside their slice
        parent = follow_tmpl(s.mem[path[0]], path[1:-1])
        if isinstance(parent, Node) and parent.tag == 'wire' and path[-1] == 1:
            put(sub(parent.a[2], l))
        if isinstance(parent, Node) and parent.tag == 'it' and parent.a[0] in ('seq', 'mapseq'):
            put(sub(parent.a[3], parent.a[2]))
        if isinstance(parent, tuple) or (isinstance(parent, Node) and parent.tag == 'adt' and parent.a[0].endswith('Range')):
            pass
    for st in [x for _k, _v, x in outs]:
        for t in st.facts.delta(s.facts):
            if t[0] in ('ge',):
                if any(a in holeatoms for a, _ in t[1].a[1]):
                    put(t[1])
                    put(addc(t[1], 1))
                    put(addc(neg(t[1]), -1))
                    put(neg(t[1]))
            elif t[0] in ('ne', 'eq'):
                if any(a in holeatoms for a, _ in t[1].a[1]):
                    put(t[1])
                    put(neg(t[1]))
                    put(addc(t[1], 1))
                    put(addc(neg(t[1]), 1))
            elif t[0] == 'dom' and t[1] in holeatoms and not isinstance(t[2], int):
                a = of_atom(t[1])
                lo, hi = t[2][0][0], t[2][-1][1]
                put(addc(neg(a), hi))
                put(addc(neg(a), hi + 1))
                put(addc(a, -lo))
                put(addc(a, 1 - lo))
            elif t[0] == 'dom' and t[1] in holeatoms:
                a = of_atom(t[1])
                vs = list(dom_vals(t[1], t[2]))
                put(addc(neg(a), max(vs)))
                put(addc(neg(a), max(vs) + 1))
    paths = sorted(hl, key=str)
    if len(paths) <= 8:
        for i, p in enumerate(paths):
            for q in paths[i + 1:]:
                if gen.holes[p].kind == 'cnt' and gen.holes[q].kind == 'cnt':
                    continue
                d = sub(hl[p], hl[q])
                z = gen_subst(gen, d, ZERO)
                if z is None:
                    continue
                e = sub(d, z)
                put(e)
                put(neg(e))
                d = add(hl[p], hl[q])
                z = gen_subst(gen, d, ZERO)
                if z is not None:
                    e = sub(d, z)
                    put(e)
                    put(neg(e))
    return cand


def follow_tmpl(v, path):
    return at_path(v, path)


def gen_subst(gen, l, k):
    """l with the holes at iteration k=0: their initial values."""
    m = {}
    kk = None
    for path, h in gen.holes.items():
        v0 = at_path(gen.st0.mem[path[0]], path[1:])
        if h.kind == 'phi':
            kk = gen
            a = hole_atom(gen, path, h)
            if a is not None:
                m[a] = v0
        elif h.kind == 'seq' and h.c is None:
            a = hole_atom(gen, path, h)
            if a is not None:
                m[a] = ZERO
    m[gen_k(gen)] = ZERO
    return subst(l, m)


def gen_k(gen):
    return atom(0, (1 << 62), 'k', gen.lid)


def hole_atom(gen, path, h):
    k = of_atom(gen_k(gen))
    if h.kind == 'phi':
        return atom(h.lo, h.hi, 'phi', gen.lid, pathkey(path), k)
    return atom(0, (1 << 63) - 1, 'phi', gen.lid, pathkey(path), k)


def preserved(I, gen, p, backs, k, kat):
    for st in backs:
        m = {kat: addc(k, 1)}
        ok = True
        for path, h in gen.holes.items():
            if h.kind == 'phi' or h.kind == 'seq' and h.c is None:
                v = after_value(I, gen, path, st, k)
                if v is None:
                    a = hole_atom(gen, path, h)
                    if a in leaves(p.a[0]) or any(a is b for b, _ in p.a[0].a[1]):
                        return False
                    continue
                m[hole_atom(gen, path, h)] = v
        l = subst_top(p.a[0], m)
        if st.facts.decide(p_ge(l)) is not True:
            return False
    return True


def subst_top(l, m):
    """Replace atoms of a linear form only where they occur directly."""
    r = const(l.a[0])
    for a, c in l.a[1]:
        s = m.get(a)
        r = add(r, s if s is not None else of_atom(a), c)
    return r


def simplify_parts(I, rec, st):
    """Appended parts which are n copies of the same value are written as such."""
    if len(rec.cases) != 1:
        return
    c = rec.cases[0]
    slots = {}
    for slot, parts in c.app.items():
        if len(parts) == 1 and parts[0].tag == 'E':
            v = parts[0].a[0]
            if not depends(v, rec.id):
                slots[slot] = v
    if not slots:
        return

    def walk(v):
        if not isinstance(v, Node) or v.tag in ('atom', 'lin', 'loopid'):
            return v
        if v.tag == 'Lp' and v.a[0] is rec.id and v.a[1] in slots:
            return mk('Rep', slots[v.a[1]], v.a[3])
        ch = False
        args = []
        for x in v.a:
            if isinstance(x, tuple):
                y = tuple(walk(z) for z in x)
                ch = ch or any(p is not q for p, q in zip(x, y))
            else:
                y = walk(x)
                ch = ch or y is not x
            args.append(y)
        return mk(v.tag, *args) if ch else v
    for cell, v in list(st.mem.items()):
        if isinstance(v, Node) and v.tag in ('vec', 'adt', 'tup', 'map', 'it', 'slice', 'ref'):
            st.mem[cell] = walk(v)


_dep = {}


def depends(v, lid):
    """Does a value mention an unknown of this loop?"""
    key = (v, lid)
    r = _dep.get(key)
    if r is not None:
        return r
    r = False
    if isinstance(v, Node):
        if v is lid:
            r = True
        elif v.tag == 'loopid':
            r = False
        else:
            for x in v.a:
                if isinstance(x, tuple):
                    if any(depends(y, lid) for y in flat(x)):
                        r = True
                        break
                elif isinstance(x, Node) and depends(x, lid):
                    r = True
                    break
    _dep[key] = r
    return r


def flat(t):
    for x in t:
        if isinstance(x, tuple):
            yield from flat(x)
        elif isinstance(x, Node):
            yield x


def elem(I, st, lp, i):
    """Element i of the part of a collection a loop appended."""
    lid, slot, start, n = lp.a
    rec = I.loops.get(lid)
    i = st.facts.norm(add(i, start))
    if rec is None:
        return mk('opq', 'lpelem', lp, i)
    h = next((h for p, h in rec.holes.items() if pathkey(p) == slot), None)
    unit = h is not None and h.c == 1 and all(len(c.app.get(slot, ())) == 1 and c.app[slot][0].tag == 'E'
                                              for c in rec.cases)
    if unit:
        idx = i
        alts = [(c, c.app[slot][0].a[0]) for c in rec.cases]
    else:
        # some iteration appended it
        idx = of_atom(atom(0, (1 << 62), 'ghost', lp, i))
        alts = []
        for c in rec.cases:
            for p in c.app.get(slot, ()):
                if p.tag in ('E', 'Rep'):
                    alts.append((c, p.a[0]))
                else:
                    alts.append((c, I.elem(st, (p,), of_atom(atom(0, (1 << 62), 'ghosti', lp, i)))))
        if not alts:
            return mk('opq', 'lpelem', lp, i)
    m = {rec.k: idx}
    cache = {}
    vals = [subst(v, m, cache) for _c, v in alts]
    if len(alts) == 1:
        st.facts.apply(subst_delta(alts[0][0].delta, m, cache))
        return vals[0]
    sel = atom(0, len(alts) - 1, 'itc', lid, slot, idx)
    if sel not in SEL:
        SEL[sel] = tuple(subst_delta(c.delta, m, cache) for c, _v in alts)
    return I.res(st, mk('ch', sel, tuple(vals)))


def summarise(I, fr, head, body, st):
    from .interp import Outcome

    def step(s):
        out = []
        for o in I.run(fr, head, s, region=body, head=head, skip_head=True):
            if o.kind == 'back':
                out.append(('back', None, o.st))
            elif o.kind == 'exit':
                out.append(('exit', o.block, o.st))
            else:
                out.append(('ret', o.val, o.st))
        return out
    live = fr.cfg.live_in(head)
    # mutable references to locals keep them alive
    keep = set(live)
    for v in st.mem.values():
        mref_cells(v, fr.depth, keep, 0)
    blk = fr.body['blocks'][head]
    span = blk['t'].get('s')
    outs = []
    for kd, v, s in run_loop(I, ('loop', fr.inst, head), st.copy(), step, (fr.depth, keep), fr.body['path'], span):
        outs.append(Outcome(kd, None if kd == 'exit' else v, s, v if kd == 'exit' else None))
    return outs


def mref_cells(v, depth, keep, d):
    if not isinstance(v, Node) or d > 6:
        return
    if v.tag == 'mref':
        c = v.a[0]
        if isinstance(c[0], int) and c[0] == depth:
            keep.add(c[1])
        return
    if v.tag in ('lin', 'atom', 'wire', 'str', 'sym', 'ge', 'eq', 'ne', 'b', 'Lp', 'Sq'):
        return
    for x in v.a:
        if isinstance(x, tuple):
            for y in x:
                mref_cells(y, depth, keep, d + 1)
        else:
            mref_cells(x, depth, keep, d + 1)
