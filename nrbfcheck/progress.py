"""Termination: a ranking function for every loop, and progress before every recursive call."""
from .dom import Node, add, addc, atom, const, of_atom, p_ge, show, sub
from .dom import ZERO
from .loops import at_path, depends, pathkey, subst_top

LARGE = 1 << 32  # counting up to what only the width of a number limits is no progress


def hole_atom(rec, path, h):
    k = of_atom(rec.k)
    if h.kind == 'phi':
        return atom(h.lo, h.hi, 'phi', rec.id, pathkey(path), k)
    return atom(0, (1 << 63) - 1, 'phi', rec.id, pathkey(path), k)


def fixed(rec, l, holes):
    """Everything in a linear form but the state of the loop is the same in all iterations."""
    return all(a in holes or a is rec.k or not depends(a, rec.id) for a, _ in l.a[1])


def candidates(rec, holes):
    out = {}

    def put(l):
        if any(a in holes or a is rec.k for a, _ in l.a[1]) and fixed(rec, l, holes):
            out[l] = None

    for p in rec.invs:
        if p.tag == 'ge':
            put(p.a[0])
    for path in rec.holes:
        par = at_path(rec.tmpl.mem[path[0]], path[1:-1]) if path[0] in rec.tmpl.mem and len(path) > 1 else None
        if isinstance(par, Node) and par.tag == 'wire' and path[-1] == 1:
            put(sub(par.a[2], par.a[1]))
        if isinstance(par, Node) and par.tag == 'it' and par.a[0] in ('seq', 'mapseq'):
            put(sub(par.a[3], par.a[2]))
        if isinstance(par, Node) and par.tag == 'slice':
            for x in par.a:
                if isinstance(x, Node) and x.tag == 'lin':
                    put(x)
    for c in rec.cases:
        for l in list(c.st.facts.lins):
            put(l)
        hi = c.st.facts.range(of_atom(rec.k))[1]
        if hi < LARGE:
            put(addc(sub(const(0), of_atom(rec.k)), hi))
        for path, h in rec.holes.items():
            if h.kind in ('phi', 'seq'):
                a = hole_atom(rec, path, h)
                lo, hi = c.st.facts.range(of_atom(a))
                put(addc(of_atom(a), -lo))
                if hi < LARGE:
                    put(addc(sub(const(0), of_atom(a)), hi))
    return list(out)


def ranked(rec):
    """Lexicographic ranking of the cases of a loop: (rank per case, cases without one)."""
    holes = {}
    for path, h in rec.holes.items():
        if h.kind == 'phi' or h.kind == 'seq' and h.c is None:
            holes[hole_atom(rec, path, h)] = path
    cands = candidates(rec, holes)
    rest = list(rec.cases)
    used = []
    while rest:
        best = None
        for l in cands:
            down = []
            for c in rest:
                m = {rec.k: addc(of_atom(rec.k), 1)}
                for a, path in holes.items():
                    v = c.vals.get(path)
                    if v is not None:
                        m[a] = v
                    elif any(a is b for b, _ in l.a[1]):
                        m = None
                        break
                if m is None:
                    down = None
                    break
                f = c.st.facts
                d = sub(l, subst_top(l, m))
                if f.decide(p_ge(addc(d, -1))) is True and f.decide(p_ge(l)) is True:
                    down.append(c)
                elif f.decide(p_ge(d)) is not True:
                    down = None
                    break
            if down and (best is None or len(down) > len(best[1])):
                best = (l, down)
        if best is None:
            break
        used.append(best[0])
        rest = [c for c in rest if c not in best[1]]
    return used, rest


# what may be tried at the very position a nonterminal begins at: only what is below it
LEVELS = {'member': 4, 'untyped member': 3, 'referenceable': 2, 'classes': 1}


def level_of(kind, extra):
    if kind == 'member':
        for x in extra:
            if isinstance(x, Node) and x.tag == 'adt' and x.a[0].endswith('::Option') and x.a[1] == 0:
                return LEVELS['untyped member']
    return LEVELS.get(kind, 9)


def check(rep, U, I, f, level):
    from .walk import Analysis, W
    an = Analysis(U, I, f['path'], f['span'])
    n = 0
    for lid, rec in I.loops.items():
        used, rest = ranked(rec)
        n += 1
        an.stats.obligations += len(rec.cases)
        for c in rest:
            w = W(an, c.st, ZERO)
            x = an.feasible(c.st.copy(), w)
            if x is None:
                continue
            if isinstance(rec.key, tuple) and rec.key[0] == 'drive':
                rep.undecided.append('the length of a sequence in %s' % f['path'])
            else:
                an.report({'C30'}, 'a loop can go on without progress', x, w, span=rec.span, fn=rec.fn)
            break
    mine = LEVELS.get(level, 9)
    done = set()
    for kind, extra, off, st, site, fn in I.early:
        k = (kind, level_of(kind, extra), site, fn)
        an.stats.obligations += 1
        if k in done or level_of(kind, extra) < mine:
            continue
        w = W(an, st, ZERO)
        x = an.feasible(st.copy(), w)
        if x is None:
            continue
        done.add(k)
        an.report({'C30'}, 'a recursion can be entered without progress: %s from %s' % (kind, level or f['path']), x, w, span=site, fn=fn)
    rep.stats['loops ranked'] = rep.stats.get('loops ranked', 0) + n
    memory(rep, an, I)
    rep.add(an)


# ------------------------------------------------------------ memory

def null_value(x):
    """Is a stored element a null?"""
    n = 0
    while isinstance(x, Node) and x.tag == 'adt' and n < 4:
        if len(x.a[2]) == 0:
            return 'Null'
        if len(x.a[2]) != 1:
            return False
        x = x.a[2][0]
        n += 1
    return False


def income(rec, c):
    """Bytes read and stored elements taken over in one iteration: alternatives of linear forms."""
    m = {rec.k: addc(of_atom(rec.k), 1)}
    read, moved = [ZERO], ZERO
    for path, h in rec.holes.items():
        if path not in c.vals or len(path) < 2 or path[0] not in rec.tmpl.mem:
            continue
        par = at_path(rec.tmpl.mem[path[0]], path[1:-1])
        if not isinstance(par, Node):
            continue
        d = sub(c.vals[path], par.a[path[-1]]) if isinstance(path[-1], int) and path[-1] < len(par.a) else None
        if d is None:
            continue
        if par.tag == 'wire' and path[-1] == 1:
            read.append(d)
        elif par.tag == 'it' and par.a[0] in ('seq', 'mapseq') and path[-1] == 2:
            moved = add(moved, d)
    return [add(r, moved) for r in read]


def of_run(rec, f, n):
    """Are n nulls, or n in each iteration so far, at most what the null record of a member says?"""
    n = f.norm(n)
    al = {a for l in f.lins for a, _ in l.a[1]} | {a for a, _ in n.a[1]}
    for a in al:
        if show(a).startswith('sym(fld,') and 'sym(nt,member,' in show(a):
            m = n if any(a is b for b, _ in n.a[1]) else add(n, of_atom(rec.k))
            if f.decide(p_ge(sub(of_atom(a), m))) is True:
                return True
    return False


def of_member(f, n):
    """Are n nulls at most what the null record of a member says?"""
    n = f.norm(n)
    for a in {a for l in f.lins for a, _ in l.a[1]} | {a for a, _ in n.a[1]}:
        if show(a).startswith('sym(fld,') and 'sym(nt,member,' in show(a) and f.decide(p_ge(sub(of_atom(a), n))) is True:
            return True
    return False


def ends(rec):
    """No iterator is past its end."""
    for path in rec.holes:
        if len(path) > 1 and path[0] in rec.tmpl.mem:
            par = at_path(rec.tmpl.mem[path[0]], path[1:-1])
            if isinstance(par, Node) and par.tag == 'it' and par.a[0] in ('seq', 'mapseq') and path[-1] == 2:
                yield p_ge(sub(par.a[3], par.a[2]))


def memory(rep, an, I):
    from .walk import Differ, W
    for lid, rec in I.loops.items():
        for c in rec.cases:
            inc = None
            for slot, parts in c.app.items():
                n = ZERO
                null = []
                for p in parts:
                    if p.tag == 'Lp':
                        continue  # the elements of another loop
                    if p.tag in ('E', 'Rep'):
                        null.append(null_value(p.a[0]))
                    n = add(n, I.part_len(p))
                if n is ZERO:
                    continue
                an.stats.obligations += 1
                if inc is None:
                    inc = income(rec, c)
                one = [p for p in parts if p.tag != 'Lp']
                nulls = len(null) == len(one) and all(null) and of_run(rec, c.st.facts, n)

                def paid(w, inc=inc, n=n, nulls=nulls, fn=rec.fn, span=rec.span):
                    f = w.st.facts
                    if any(f.decide(p_ge(sub(i, n))) is True for i in inc):
                        return
                    if any(w.when(p_ge(sub(i, n))) for i in inc):
                        return
                    w.fn, w.span = ('null records' if nulls else fn), span
                    raise Differ({'C31'}, 'a null record stores as many nulls as it says' if nulls
                                 else 'elements are stored that were not read')
                st = c.st.copy()
                for p in ends(rec):
                    st.facts.assume(p)
                each(an, st, paid)
    done = set()
    an.stats.obligations += I.reservations
    for n, site, fn, st, value in I.reserved:
        if (site, fn) in done:
            continue
        if value is not None and null_value(value) and of_member(st.facts, n):
            # the elements themselves are counted where they are stored
            continue
        w = W(an, st, ZERO)
        x = an.feasible(st.copy(), w)
        if x is None:
            continue
        done.add((site, fn))
        an.report({'C31'}, 'memory is reserved for a number of elements that was not read', x, w, span=site, fn=fn)


def each(an, st, spec):
    """Decide a rule in every way of choosing between the alternatives that are still open."""
    from .walk import Differ, W

    def body(s):
        w = W(an, s, ZERO)
        try:
            spec(w)
        except Differ as e:
            x = an.feasible(s, w)
            if x is not None:
                an.report(e.tags, e.what, x, w, span=w.span, fn=w.fn)

    an.explore(st, body)
