"""Comparing the outcomes of a parser function with a specification.

A specification is a Python function that walks over the input symbolically: it reads fields, states
what must hold (`need`) and returns the value it expects. It is run over the facts of one outcome of
the analysed function. Where these leave a condition open, the outcome is divided along the choices
the analysis merged into it, or along the condition itself.

  the function returns Ok   the specification has to accept, end at the same position and expect the
                            same value
  the function returns Err  the specification has to reject
"""
import time

from .dom import (SEL, ZERO, add, addc, as_signed, atom, batom, const, INF, leaves, mk, of_atom, p_b, p_eq, p_ge, p_not,
                  scale, show, show_facts, sub, Node)
from .interp import NONZERO, OPTION, Split, Undecided, is_int, refine
from . import strings
from .loops import pathkey


class Reject(Exception):
    """The specification does not allow this input here."""

    def __init__(self, tags, what, kind='content'):
        self.tags, self.what, self.kind = frozenset(tags), what, kind


class Differ(Exception):
    """The function does something else than the specification."""

    def __init__(self, tags, what):
        self.tags, self.what = frozenset(tags), what


class Finding:
    def __init__(self, tags, what, fn, span, detail):
        self.tags, self.what, self.fn, self.span, self.detail = frozenset(tags), what, fn, span, detail

    def key(self):
        return (self.fn, self.what)


class Stats:
    def __init__(self):
        self.paths = self.obligations = self.cases = self.loops = 0


_selatoms = {}


def sel_atoms(sel):
    """Atoms the alternatives of a choice say something about, including nested choices."""
    r = _selatoms.get(sel)
    if r is None:
        r = set()
        _selatoms[sel] = r
        for d in SEL.get(sel, ()):
            for t in d:
                n = t[1]
                if n.tag == 'lin':
                    for a, _ in n.a[1]:
                        r.add(a)
                        r |= leaves(a)
                        if a.a[2][0] == 'm':
                            r |= sel_atoms(a.a[2][1])
                else:
                    r.add(n)
                    r |= leaves(n)
                    if n.a[2][0] == 'm':
                        r |= sel_atoms(n.a[2][1])
                    if n in SEL:
                        r |= sel_atoms(n)
    return r


def sels_of(v, out, seen):
    """Choices a value depends on."""
    work = [v]
    while work:
        v = work.pop()
        if isinstance(v, tuple):
            work.extend(v)
            continue
        if not isinstance(v, Node) or v in seen:
            continue
        seen.add(v)
        if v.tag == 'ch':
            out.setdefault(v.a[0], None)
            work.extend(v.a[1])
        elif v.tag == 'atom':
            k = v.a[2]
            if k[0] == 'm':
                out.setdefault(k[1], None)
            elif k[0] in ('op', 'bits'):
                work.extend(x for x in k if isinstance(x, Node))
        elif v.tag in ('lin',):
            work.extend(a for a, _ in v.a[1])
        elif v.tag in ('loopid', 'Lp', 'Sq', 'map', 'mapbase'):
            pass
        else:
            work.extend(v.a)
    return out


class W:
    """A walk of the specification along one outcome."""

    lazy = False
    trusted = False         # what is read here has been verified elsewhere

    def __init__(self, an, st, pos, value=None, log=None):
        self.an, self.I, self.st = an, an.I, st
        self.pos = pos
        self.base, self.end = an.base, an.end
        self.value = value
        self.log = st.events() if log is None else log
        self.at = 0
        self.seen = []
        self.mays = []
        self.flat = None
        self.byhead = None

    # ------------------------------------------------------------ choices

    def open_sels(self):
        out = {}
        for e in self.log:
            self.ev_sels(e, out)
        if self.value is not None:
            sels_of(self.value, out, set())
        return [s for s in out if self.n_alts(s) > 1]

    def n_alts(self, s):
        return bin(self.st.facts.get(s)).count('1')

    def ev_sels(self, e, out):
        if e[0] == 'either':
            sel = e[1]
            m = self.st.facts.get(sel)
            out.setdefault(sel, None)
            if e[2]:
                for i, seg in enumerate(e[2]):
                    if (m >> i) & 1:
                        for x in seg:
                            self.ev_sels(x, out)

    def split_sel(self, s):
        m = self.st.facts.get(s)
        raise Split([[('dom', s, 1 << i)] for i in range(m.bit_length()) if (m >> i) & 1])

    def split(self, p):
        atoms = set()
        for n in p.a:
            if isinstance(n, Node):
                if n.tag == 'lin':
                    for a, _ in n.a[1]:
                        atoms.add(a)
                        atoms |= leaves(a)
                else:
                    atoms.add(n)
                    atoms |= leaves(n)
        for a in atoms:
            if a.a[2][0] == 'm' and self.n_alts(a.a[2][1]) > 1:
                self.split_sel(a.a[2][1])
            if a in SEL and self.n_alts(a) > 1:
                self.split_sel(a)
        if not self.lazy:
            for s in self.open_sels():
                if not atoms.isdisjoint(sel_atoms(s)):
                    self.split_sel(s)
        raise Split([[p], [p_not(p)]])

    def when(self, p):
        d = self.st.facts.decide(p)
        if d is None:
            self.split(p)
        return d

    def need(self, p, tags, what, kind='content'):
        self.an.stats.obligations += 1
        if not self.when(p):
            raise Reject(tags, what, kind)
        self.seen.append((p, tags))

    def may(self, p):
        """A stricter condition the function is free to impose: rejecting is right, accepting too."""
        self.mays.append(p)

    # ------------------------------------------------------------ reading

    def avail(self, n, what):
        self.need(p_ge(sub(sub(self.end, self.pos), n)), {'C34', 'C03'}, '%s is cut off' % what)

    def u(self, n, what):
        """An unsigned little endian number of n bytes, as atom."""
        self.avail(const(n), what)
        a = atom(0, (1 << 8 * n) - 1, 'rd', self.base, self.pos, n, 'u')
        self.link(a)
        self.pos = addc(self.pos, n)
        return a

    # ------------------------------------------------------------ equal positions

    def known(self):
        """Unknowns of the path which depend on a position of the input."""
        if self.byhead is None:
            self.byhead = {}
            f = self.st.facts
            al = set(f.dom) | set(f.bools)
            for l in list(f.lins) + list(f.nes):
                al.update(a for a, _ in l.a[1])
            for a, l in f.sub.items():
                al.add(a)
                al.update(b for b, _ in l.a[1])
            for s in self.open_sels():
                al |= sel_atoms(s)
            for a in list(al):
                al |= leaves(a)
            for a in al:
                k = a.a[2]
                if k[0] in ('rd', 'lpslen', 'lpspre') and k[1] is self.base:
                    self.byhead.setdefault((k[0],) + k[3:], []).append((k[2], a))
                elif k[0] == 'bool' and k[1] in ('lps', 'utf8') and k[2] is self.base:
                    self.byhead.setdefault((k[0], k[1]), []).append((k[3], a))
                elif k[0] == 'bits' and k[1].tag == 'atom' and k[3] == 1:
                    self.byhead.setdefault(('bits', k[1]), []).append((k[2], a))
                elif k[0] == 'op' and k[1] == 'sbits' and k[2].tag == 'atom':
                    self.byhead.setdefault(('sbits', k[2]), []).append((k[3:], a))
        return self.byhead

    def twins(self, a):
        k = a.a[2]
        if k[0] == 'bool':
            h, off = (k[0], k[1]), k[3]
        else:
            h, off = (k[0],) + k[3:], k[2]
        f = self.st.facts
        for o, b in self.known().get(h, ()):
            if b is not a and o is not off and f.value(sub(o, off)) == 0:
                yield b

    def link(self, a):
        """What is known about the same field under another name of its position holds for it, too."""
        f = self.st.facts
        for b in self.twins(a):
            if a.a[2][0] == 'bool':
                k, q = a.a[2], b.a[2]
                if k[1] == 'utf8' and f.value(sub(k[4], q[4])) != 0:
                    continue
                for x, y in ((a, b), (b, a)):
                    if x in f.bools:
                        if f.bools.setdefault(y, f.bools[x]) != f.bools[x]:
                            raise Split([])
                continue
            d, e = f.get(a), f.get(b)
            ok = True
            if isinstance(d, int) and isinstance(e, int):
                ok = f._set(a, d & e) and f._set(b, d & e)
                if ok and (d & e) & ((d & e) - 1):
                    ok = f.assume(p_eq(sub(of_atom(a), of_atom(b))))
            else:
                ok = f.assume(p_eq(sub(of_atom(a), of_atom(b))))
            if not ok:
                # two names of one field with different values: this does not happen
                raise Split([])
            for i, x in self.known().get(('bits', b), ()):
                y = atom(0, 1, 'bits', a, i, 1)
                d = f.get(x) & f.get(y)
                if not d or not f._set(x, d) or not f._set(y, d):
                    raise Split([])
            for q, x in self.known().get(('sbits', b), ()):
                if q[0] == 0 and not f.assume(p_eq(sub(of_atom(x), as_signed(a, q[1])))):
                    raise Split([])

    def string_facts(self):
        for kind in ('lpslen', 'lpspre'):
            hi = 5 if kind == 'lpspre' else (1 << 63) - 1
            self.link(atom(1, hi, kind, self.base, self.pos))
        b = batom('lps', self.base, self.pos, self.end)
        self.link(b)

    def num(self, n, signed, what):
        a = self.u(n, what)
        return as_signed(a, 8 * n) if signed else of_atom(a)

    def string(self, tags, what):
        self.string_facts()
        b = batom('lps', self.base, self.pos, self.end)
        self.need(p_b(b), {'C07', 'C34'} | set(tags), '%s is not a valid string' % what)
        n = of_atom(atom(1, (1 << 63) - 1, 'lpslen', self.base, self.pos))
        p = of_atom(atom(1, 5, 'lpspre', self.base, self.pos))
        s = ('str', self.base, add(self.pos, p), sub(n, p))
        self.pos = add(self.pos, n)
        return s

    # ------------------------------------------------------------ events

    def events(self):
        """Events on this path in order; open alternatives are divided when they are reached."""
        if self.flat is None:
            self.flat = []
            self.stack = [iter(self.log)]
        i = 0
        while True:
            while i < len(self.flat):
                yield i, self.flat[i]
                i += 1
            if not self.more():
                return

    def more(self):
        while self.stack:
            e = next(self.stack[-1], None)
            if e is None:
                self.stack.pop()
                continue
            if e[0] == 'either':
                if not e[2]:
                    continue
                if self.n_alts(e[1]) > 1:
                    self.split_sel(e[1])
                m = self.st.facts.get(e[1])
                self.stack.append(iter(e[2][m.bit_length() - 1]))
                continue
            self.flat.append(e)
            return True
        return False

    # ------------------------------------------------------------ repetition

    def find_loop(self):
        """The next loop on the path whose input position starts here."""
        for i, e in self.events():
            if i < self.at or e[0] != 'loop':
                continue
            rec = self.I.loops.get(e[1])
            if rec is None:
                continue
            for path, h in rec.holes.items():
                if h.kind not in ('cnt', 'phi') or not path or path[-1] != 1:
                    continue
                par = entry_at(rec, path[:-1])
                if not (isinstance(par, Node) and par.tag == 'wire' and par.a[0] is self.base):
                    continue
                off0 = par.a[1]
                d = self.st.facts.decide(p_eq(sub(off0, self.pos)))
                if d is True:
                    self.at = i + 1
                    return rec, path, off0, e[2]
        return None

    def off_at(self, rec, path, off0, k):
        h = rec.holes[path]
        if h.kind == 'cnt':
            return add(off0, scale(k, h.c))
        return of_atom(atom(h.lo, h.hi, 'phi', rec.id, pathkey(path), k))

    def rep(self, n, elem, tags, what):
        """n times what `elem(walk, index)` reads. The result is a sequence of its values."""
        tags = set(tags)
        c = self.st.facts.value(n)
        if c == 0:
            return ('seq', ZERO, None)
        at, L = self.at, self.find_loop()
        if L is None:
            # not a loop, or one that runs only a few times
            self.at = at
            vals = []
            while self.when(p_ge(addc(sub(n, const(len(vals))), -1))):
                if len(vals) > 20:
                    raise Undecided('no loop for %s' % what)
                vals.append(elem(self, const(len(vals))))
            return ('list', vals)
        rec, path, off0, k = L
        base, end = self.base, self.end
        if not self.trusted:
            self.an.check_loop(self, rec, path, off0, elem, tags, what)
        off = self.off_at(rec, path, off0, k)
        if self.when(p_ge(sub(k, n))):
            if not self.when(p_eq(sub(k, n))):
                raise Differ(tags, 'more than the announced number of %s are read' % what)
            self.pos = off
        else:
            self.pos = off
            elem(self, k)
            raise Differ(tags, 'reading %s stops before the announced number' % what)

        def at_index(w, g):
            save = w.base, w.end
            w.base, w.end = base, end
            w.pos = self.off_at(rec, path, off0, g)
            try:
                return elem(w, g)
            finally:
                w.base, w.end = save

        return ('seq', n, at_index)

    # ------------------------------------------------------------ values

    def unwrap(self, v):
        while True:
            v = self.I.res(self.st, v) if isinstance(v, Node) else v
            if not isinstance(v, Node):
                return v
            if v.tag == 'lin':
                return self.st.facts.norm(v)
            if v.tag == 'ref':
                v = v.a[0]
            elif v.tag == 'mref':
                v = self.I.load(self.st, v.a[0], v.a[1])
            elif v.tag == 'adt' and len(v.a[2]) == 1 and not self.is_enum(v.a[0]):
                v = v.a[2][0]
            elif v.tag == 'ch':
                if v.a[0] in SEL:
                    self.split_sel(v.a[0])
                self.I.split_ch(self.st, v, lambda x: x)
            elif v.tag == 'sym':
                t = self.I.T[v.a[1]]
                if t['k'] == 'adt' and not t['enum'] and t.get('variants'):
                    v = self.I.expand(self.st, v)
                    if len(v.a[2]) != 1:
                        return v
                else:
                    return v
            else:
                return v

    def is_enum(self, path):
        t = self.I.P.adts.get(path)
        return path in (OPTION, 'std::result::Result') or (t is not None and t['enum'])

    def vname(self, v):
        """Variant name of an enum value."""
        v = self.unwrap(v)
        if not isinstance(v, Node) or v.tag not in ('adt', 'sym'):
            raise Undecided('variant of %s' % show(v))
        i = self.I.variant_of(self.st, v)
        path = v.a[0] if v.tag == 'adt' else self.I.T[v.a[1]]['path']
        t = self.I.P.adts.get(path) or self.I.T[v.a[1]]
        return t['variants'][i]['name']

    def variants(self, v):
        path = v.a[0] if v.tag == 'adt' else self.I.T[v.a[1]]['path']
        t = self.I.P.adts.get(path) or self.I.T[v.a[1]]
        return [x['name'] for x in t['variants']]

    def same_node(self, a, b):
        """Two values are the same unknown."""
        a, b = self.I.deep(self.st, self.unwrap(a)), self.I.deep(self.st, self.unwrap(b))
        if a is b:
            return True
        if is_int(a) and is_int(b):
            return self.when(p_eq(sub(a, b)))
        if not isinstance(a, Node) or not isinstance(b, Node):
            return a == b
        for x, y in ((a, b), (b, a)):
            if x.tag == 'adt' and y.tag == 'sym':
                t = self.I.T[y.a[1]]
                if t['k'] == 'adt' and t['path'] == x.a[0]:
                    if t['enum'] and self.I.variant_of(self.st, y) != x.a[1]:
                        return False
                    y = self.I.expand(self.st, y, x.a[1])
                    return all(self.same_node(p, q) for p, q in zip(x.a[2], y.a[2]))
        if a.tag == b.tag == 'str' and a.a[0] != b.a[0]:
            for x, y in ((a, b), (b, a)):
                if x.a[0] == 'w' and self.reads(y, x.a[1], x.a[2]):
                    raise Differ({'C29'}, 'a constant takes the place of the part of the input that equals it')
        if a.tag != b.tag:
            return False
        if a.tag == 'adt' and a.a[:2] == b.a[:2]:
            return all(self.same_node(p, q) for p, q in zip(a.a[2], b.a[2]))
        if a.tag in ('tup', 'arr') and len(a.a[0]) == len(b.a[0]):
            return all(self.same_node(p, q) for p, q in zip(a.a[0], b.a[0]))
        if a.tag == 'vec' and len(a.a[0]) == len(b.a[0]):
            return all(self.same_node(p.a[0], q.a[0]) if p.tag == q.tag == 'E' else self.same_key(p, q)
                       for p, q in zip(a.a[0], b.a[0]))
        if a.tag == 'str' and a.a[0] == b.a[0] == 'w' and a.a[1] is b.a[1]:
            return self.when(p_eq(sub(a.a[2], b.a[2]))) and self.when(p_eq(sub(a.a[3], b.a[3])))
        if a.tag == 'sym' and a.a[1] == b.a[1] or a.tag == 'str' and a.a[0] == b.a[0] == 's':
            return self.same_key(a, b)
        return False

    def reads(self, c, base, off):
        """The constant string was found to be the text at the offset."""
        if not isinstance(c, Node) or c.tag != 'str' or c.a[0] != 'c':
            return False
        for a, v in self.st.facts.bools.items():
            k = a.a[2]
            if v is True and k[0] == 'bool' and k[1] == 'streq':
                for x, y in (k[2:], k[:1:-1]):
                    if x.tag == y.tag == 'str' and x.a == c.a and y.a[0] == 'w' and y.a[1] is base and \
                            self.st.facts.value(sub(y.a[2], off)) == 0:
                        return True
        return False

    def same_key(self, a, b):
        """Two names of unknowns that only differ in equal numbers."""
        if a is b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same_key(x, y) for x, y in zip(a, b))
        if not isinstance(a, Node) or not isinstance(b, Node):
            return type(a) is type(b) and a == b
        if a.tag != b.tag:
            return False
        if a.tag == 'lin':
            return self.st.facts.value(sub(a, b)) == 0
        return self.same_key(a.a, b.a)

    def same(self, spec, v, tags, what):
        """v is the value the specification expects."""
        self.an.stats.obligations += 1
        k = spec[0]
        if k == 'any':
            return
        if k == 'check':
            spec[1](self, v, tags, what)
            return
        v = self.unwrap(v)

        def bad(how=''):
            raise Differ(tags, '%s is not %s%s' % (what, describe(spec), how))

        if isinstance(v, Node) and v.tag == 'opq' and v.a[0] in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Neg') and k == 'f' and all(
                isinstance(x, Node) and x.tag == 'flt' for x in v.a[1:]):
            bad(' (arithmetic)')
        if isinstance(v, Node) and v.tag == 'opq' and k not in ('dec',):
            raise Undecided('opaque value for %s: %s' % (what, show(v)[:80]))
        if k == 'int':
            if not is_int(v):
                bad()
            if not self.when(p_eq(sub(v, spec[1]))):
                bad()
        elif k == 'bool':
            if not (v is True or v is False or isinstance(v, Node) and v.tag in ('ge', 'eq', 'ne', 'b')):
                bad()
            a = v if isinstance(v, bool) else self.when(v)
            b = spec[1] if isinstance(spec[1], bool) else self.when(spec[1])
            if a != b:
                bad()
        elif k == 'str':
            if not (isinstance(v, Node) and v.tag == 'str' and v.a[0] == 'w' and v.a[1] is spec[1]):
                if isinstance(v, Node) and v.tag == 'str' and v.a[0] == 's' and v.a[1].a[2][0] != 'strsym':
                    raise Undecided('%s: %s' % (what, show(v)))
                if self.reads(v, spec[1], spec[2]):
                    raise Differ({'C29'}, '%s is a constant instead of the part of the input that equals it' % what)
                bad()
            if not self.when(p_eq(sub(v.a[2], spec[2]))) or not self.when(p_eq(sub(v.a[3], spec[3]))):
                bad()
        elif k == 'char':
            if not (is_int(v) and len(v.a[1]) == 1 and v.a[1][0][0].a[2][0] == 'char'):
                if is_int(v) and self.st.facts.value(spec[3]) == 1:
                    # a character of one byte is that byte
                    b = of_atom(atom(0, 255, 'rd', spec[1], spec[2], 1, 'u'))
                    if not self.when(p_eq(sub(v, b))):
                        bad()
                    return
                bad()
            s = v.a[1][0][0].a[2][1]
            self.same(('str',) + spec[1:], s, tags, what)
        elif k == 'dec':
            s = v
            if isinstance(s, Node) and s.tag == 'opq' and s.a[0] == 'decimal':
                self.same(('str',) + spec[1:], s.a[2], tags, what)
            else:
                bad()
        elif k == 'f':
            if not (isinstance(v, Node) and v.tag == 'flt'):
                bad()
            if not (v.a[0] == 'rd' and v.a[1] is spec[1] and v.a[3] == spec[3]
                    and self.when(p_eq(sub(v.a[2], spec[2])))):
                bad()
        elif k == 'opt':
            if not (isinstance(v, Node) and v.tag in ('adt', 'sym')):
                bad()
            if v.tag == 'sym':
                v = self.I.expand(self.st, v)
            if v.a[0] != OPTION:
                bad()
            if (v.a[1] == 1) != (spec[1] is not None):
                bad(' (is %s)' % ('present' if v.a[1] else 'missing'))
            if spec[1] is not None:
                self.same(spec[1], v.a[2][0], tags, what)
        elif k == 'node':
            if not self.same_node(spec[1], v):
                bad()
        elif k == 'tup':
            if not (isinstance(v, Node) and v.tag in ('tup', 'adt')):
                raise Undecided('tuple for %s' % what)
            xs = v.a[0] if v.tag == 'tup' else v.a[2]
            if len(xs) != len(spec[1]):
                raise Undecided('tuple of %d for %s' % (len(xs), what))
            for i, x in enumerate(spec[1]):
                self.same(x, xs[i], tags, what)
        elif k == 'enum':
            if not (isinstance(v, Node) and v.tag in ('adt', 'sym')):
                bad()
            n = self.vname(v)
            if n != spec[1]:
                if spec[1] not in self.variants(v):
                    raise Undecided('%s has no variant %s' % (what, spec[1]))
                bad(' (is %s)' % n)
            if v.tag == 'sym':
                v = self.I.expand(self.st, v, self.I.variant_of(self.st, v))
            for i, s in enumerate(spec[2]):
                ts = tags
                if len(s) == 2 and isinstance(s[1], frozenset):
                    s, ts = s[0], frozenset(tags) | s[1]
                self.same(s, v.a[2][i], ts, what)
        elif k == 'rec':
            if not (isinstance(v, Node) and v.tag == 'adt'):
                # a struct of a single field
                if len(spec[1]) == 1:
                    (n, (s, t)), = spec[1].items()
                    self.same(s, v, tags | t, '%s.%s' % (what, n))
                    return
                self.an.note('%s: %s has another form' % (what, show(v)[:60]))
                return
            names = self.an.field_names(v.a[0])
            for n, (s, t) in spec[1].items():
                if n in names:
                    self.same(s, v.a[2][names.index(n)], tags | t, '%s.%s' % (what, n))
                else:
                    self.an.note('%s has no field %s' % (v.a[0], n))
        elif k in ('seq', 'list'):
            if not (isinstance(v, Node) and v.tag in ('vec', 'slice', 'arr')):
                bad()
            parts = self.I.parts(self.st, v)
            n = spec[1] if k == 'seq' else const(len(spec[1]))
            if not self.when(p_eq(sub(self.I.seq_len(self.st, parts), n))):
                raise Differ(tags, 'number of elements of %s' % what)
            if k == 'list':
                for i, s in enumerate(spec[1]):
                    self.same(s, self.I.elem(self.st, parts, const(i)), tags, '%s[%d]' % (what, i))
            elif spec[2] is not None:
                self.an.check_elements(self, parts, n, spec[2], tags, what)
        else:
            raise Undecided('spec %s' % k)


def describe(spec):
    k = spec[0]
    if k == 'int':
        return 'the number %s' % show(spec[1])
    if k == 'bool':
        return 'the truth value of %s' % show(spec[1])
    if k in ('str', 'char', 'dec', 'f'):
        return 'the %s at %s+%s' % ({'str': 'string', 'char': 'character', 'dec': 'decimal', 'f': 'float'}[k],
                                    show(spec[2]), show(spec[3]))
    if k == 'enum':
        return spec[1]
    if k == 'opt':
        return 'absent' if spec[1] is None else describe(spec[1])
    return k


def entry_at(rec, path):
    from .loops import at_path
    v = rec.entry.mem.get(path[0])
    if v is None:
        return None
    try:
        return at_path(v, path[1:])
    except (IndexError, AttributeError, TypeError):
        return None


class Budget:
    """Time that is left for a job; analyses that have already found something stop early."""
    start = None
    quiet, found = 600, 60
    live = []
    known = set()


_taint = {}
# opaque values whose origin is known: errors, texts, constants and the like
KNOWN_OPQ = ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Neg', 'error', 'kind', 'Utf8Error', 'decimal', 'DecimalError', 'TryFromSliceError', 'const', 'static', 'fmt', 'dyn',
             'never', 'mapval', 'entryref', 'fld', 'deref', 'not', 'neg')


def tainted(x):
    """The value depends on something the analysis does not know (the result of a function without a model)."""
    if isinstance(x, Node):
        r = _taint.get(x)
        if r is None:
            _taint[x] = False
            r = _taint[x] = x.tag == 'opq' and not (isinstance(x.a[0], str) and (
                x.a[0] in KNOWN_OPQ or x.a[0].startswith('str.'))) or any(tainted(y) for y in x.a)
        return r
    if isinstance(x, tuple):
        return bool(x) and (x[0] == 'unk' or any(tainted(y) for y in x))
    return False


def ev_tainted(I, e, seen):
    if e[0] == 'unknown':
        return True
    if e[0] == 'either':
        return any(ev_tainted(I, y, seen) for seg in e[2] or () for y in seg)
    if e[0] == 'loop':
        if e[1] in seen:
            return False
        seen.add(e[1])
        rec = I.loops.get(e[1])
        return rec is not None and any(ev_tainted(I, y, seen) for c in rec.cases for y in c.events)
    return False


class Analysis:
    """Compares the outcomes of one unit with its specification."""

    def __init__(self, units, I, fn, span):
        self.U, self.I, self.fn, self.span = units, I, fn, span
        self.base, self.end = units.base, units.end
        self.findings = []
        self.undecided = []
        self.notes = set()
        self.stats = Stats()
        self.loops_done = {}
        self.max_paths = 60000
        Budget.live.append(self)
        if Budget.start is None:
            Budget.start = time.monotonic()

    def note(self, s):
        self.notes.add(s)

    def field_names(self, path):
        t = self.I.P.adts.get(path)
        return [f['name'] for f in t['variants'][0]['fields']] if t else []

    def unsure(self, st, w):
        f = st.facts
        if any(tainted(a) for d in (f.dom, f.bools, f.sub) for a in d):
            return True
        if any(tainted(l) for l in f.lins) or any(tainted(l) for l in f.nes):
            return True
        if w is not None:
            seen = set()
            if any(ev_tainted(self.I, e, seen) for e in w.log):
                return True
            if w.value is not None and tainted(w.value):
                return True
        return any(ev_tainted(self.I, e, set()) for e in st.events())

    def report(self, tags, what, st, w=None, span=None, fn=None):
        if self.unsure(st, w):
            self.undecided.append('%s, if at all with unknown functions' % what)
            return
        f = Finding(tags, what, fn or self.fn, span or self.span, '; '.join(show_facts(st.facts))[:4000])
        if not any(x.key() == f.key() and x.tags == f.tags for x in self.findings):
            self.findings.append(f)

    def known(self, tags, what):
        return any(x.what == what and tags <= x.tags for x in self.findings)

    def exhausted(self):
        t = time.monotonic() - Budget.start
        if any(f.key() not in Budget.known for a in Budget.live for f in a.findings):
            return t > Budget.found
        return t > Budget.quiet

    def explore(self, st, body, limit=None):
        """Run body(state) for every way of deciding what it needs to know."""
        todo = [st]
        n = 0
        while todo:
            s0 = todo.pop()
            n += 1
            if n > self.max_paths:
                raise Undecided('too many paths in %s' % self.fn)
            if n % 16 == 0 and self.exhausted():
                self.undecided.append('not all paths were compared in the time')
                return
            s = s0.copy()
            try:
                body(s)
                self.stats.paths += 1
            except Undecided as e:
                # this path is left open, the others are still compared
                self.undecided.append(str(e))
            except Split as e:
                nxt = []
                for ref in e.refs:
                    x = s0.copy()
                    if refine(x, ref) and x.facts.consistent():
                        nxt.append(x)
                todo.extend(nxt)

    def feasible(self, st, w):
        """Some combination of the choices that are still open is consistent (a search over them)."""
        todo = [st]
        n = 0
        start = time.monotonic()
        while todo:
            s = todo.pop()
            n += 1
            if n > 3000 or n % 64 == 0 and (time.monotonic() - start > 20 or self.exhausted()):
                self.undecided.append('whether a path is possible')
                return None
            s = self.settle(s, w)
            if s is None:
                continue
            w.st = s
            o = w.open_sels()
            if not o:
                if s.facts.consistent() and not self.contradicts(s, w):
                    return s
                continue
            best = None
            for sel in o:
                m = s.facts.get(sel)
                xs = self.options(s, sel, m)
                if best is None or len(xs) < len(best):
                    best = xs
                    if len(xs) <= 2:
                        break
            todo.extend(best)
        return None

    def contradicts(self, s, w):
        """A map has an entry for a key, and none for the same key."""
        f = s.facts
        if f.clash() or strings.clash(f, self.I.str_len):
            return True
        yes, no = [], []
        for a, v in f.bools.items():
            k = a.a[2]
            if k[0] == 'bool' and k[1] == 'has':
                (yes if v else no).append(k)
        for x in yes:
            for y in no:
                if x[2] is y[2] and x[3] is not y[3]:
                    try:
                        if f.value(sub(w.key_lin(x[3]), w.key_lin(y[3]))) == 0:
                            return True
                    except (Undecided, AttributeError):
                        pass
        return False

    def options(self, s, sel, m):
        r = []
        for i in range(m.bit_length()):
            if (m >> i) & 1:
                x = s.copy()
                if refine(x, [('dom', sel, 1 << i)]) and x.facts.consistent():
                    r.append(x)
        return r

    def settle(self, s, w):
        """Decide every choice of which a single alternative is left; None if there is one with none."""
        again = True
        while again:
            again = False
            w.st = s
            for sel in w.open_sels():
                m = s.facts.get(sel)
                xs = self.options(s, sel, m)
                if not xs:
                    return None
                if len(xs) == 1:
                    s = xs[0]
                    w.st = s
                    again = True
        return s

    def accept_path(self, st, pos, spec, value, tags, what, log=None, newpos=None):
        """The function accepted: so must the specification, at the same place with the same value."""

        def body(s):
            w = W(self, s, pos, value, log)
            try:
                r = spec(w)
                if newpos is not None:
                    if not w.when(p_eq(sub(w.pos, newpos))):
                        raise Differ(tags, '%s ends at another position' % what)
                if r is not None:
                    w.same(r, value, frozenset(tags), what)
            except Reject as e:
                if self.known(e.tags, '%s is accepted although %s' % (what, e.what)):
                    return
                x = self.feasible(s, w)
                if x is not None:
                    # an error in a record that was recognised
                    more = {'C21'} if e.kind != 'mismatch' and what != 'a message' else set()
                    self.report(e.tags | more, '%s is accepted although %s' % (what, e.what), x, w)
            except Differ as e:
                if self.known(e.tags, '%s: %s' % (what, e.what)):
                    return
                x = self.feasible(s, w)
                if x is not None:
                    self.report(e.tags, '%s: %s' % (what, e.what), x, w)

        self.explore(st, body)

    def reject_path(self, st, pos, spec, value, tags, what, log=None, variant=None):
        def body(s):
            w = W(self, s, pos, value, log)
            w.rejecting = True
            try:
                spec(w)
            except Reject as e:
                if variant is not None and e.kind == 'mismatch' and variant == 2:
                    x = self.feasible(s, w)
                    if x is not None:
                        self.report(e.tags | {'C20', 'C02'}, '%s: another record at its place is a failure' % what, x, w)
                return
            except Differ as e:
                if self.known(e.tags, '%s: %s' % (what, e.what)):
                    return
                x = self.feasible(s, w)
                if x is not None:
                    self.report(e.tags, '%s: %s' % (what, e.what), x, w)
                return
            if any(not w.when(p) for p in w.mays):
                return
            x = self.feasible(s, w)
            if x is not None:
                self.report(tags | self.blame(w, x), '%s is rejected although it is valid' % what, x, w)

        self.explore(st, body)

    def blame(self, w, st):
        """Properties of the needs whose unknowns the path restricts further."""
        from .dom import Facts
        f = Facts()
        for p, _t in w.seen:
            f.assume(p)
        extra = set()
        for a, d in st.facts.dom.items():
            if f.get(a) != d:
                extra.add(a)
                extra |= leaves(a)
        for a, v in st.facts.bools.items():
            if f.bools.get(a) != v:
                extra.add(a)
        tags = set()
        for p, t in w.seen:
            at = set()
            for n in p.a:
                if isinstance(n, Node):
                    if n.tag == 'lin':
                        for a, _ in n.a[1]:
                            at.add(a)
                            at |= leaves(a)
                    else:
                        at.add(n)
            if at & extra:
                tags |= set(t)
        return tags

    # ------------------------------------------------------------ loops

    def check_loop(self, w, rec, path, off0, elem, tags, what):
        """Every iteration reads exactly one element."""
        key = (rec.id, path, what)
        if key in self.loops_done:
            return
        self.loops_done[key] = rec
        self.stats.loops += 1
        k = of_atom(rec.k)
        for c in rec.cases:
            self.stats.cases += 1
            new = c.vals.get(path)
            if new is None:
                self.note('loop of %s: position after an iteration unknown' % what)
                continue
            self.accept_path(c.st, w.off_at(rec, path, off0, k), lambda w2: (elem(w2, k), None)[1],
                             None, tags, 'element of %s' % what, log=c.events, newpos=new)

    def check_elements(self, w, parts, n, at_index, tags, what):
        """Element g is what the specification expects at index g, for every g."""
        w.st.serial += 1
        g = of_atom(atom(0, (1 << 62), 'ghost', 'index', n, mk('fresh', w.st.serial, ())))
        st = w.st.copy()
        if not st.facts.assume(p_ge(addc(sub(n, g), -1))):
            return

        def body(s):
            v = self.I.elem(s, parts, g)
            w2 = W(self, s, ZERO, v, [])
            w2.ghost = True
            try:
                spec = at_index(w2, g)
                w2.same(spec, v, tags, 'element of %s' % what)
            except Reject as e:
                x = self.feasible(s, w2)
                if x is not None:
                    self.report(e.tags | set(tags) | {'C21'}, 'element of %s is accepted although %s' % (what, e.what), x, w2)
            except Differ as e:
                x = self.feasible(s, w2)
                if x is not None:
                    self.report(e.tags, '%s: %s' % (what, e.what), x, w2)

        self.explore(st, body)
