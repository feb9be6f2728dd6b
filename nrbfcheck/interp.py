"""Abstract interpreter for the dumped MIR.

Values are hash-consed nodes (see dom.mk):

  Lin                     every integer and char
  True/False/predicate    bool
  adt(path, variant, fields)   tup(fields)   arr(elems)   clo(ty, upvars)   fn(ty)
  ref(value)              shared reference: a snapshot, since its target cannot change while it lives
  mref(cell, path)        mutable reference
  wire(base, off, end)    a slice of the input
  str('w', base, off, len) | str('c', text) | str('s', atom)
  slice(parts) vec(parts) sequences; parts: E(v) Rep(v, n) Sq(atom, n, ty) Lp(loop, slot, k, n) Sl(parts, i, n)
  map(path, base, log)    maps with a log of changes
  it(kind, ...)           iterators
  sym(atom, ty)           unknown of a type, expanded when it is inspected
  ch(sel, values)         one of several values, decided by a selector
  opq(name, ...)          a value nothing is known about
"""
import json
import re
import sys

from .dom import (Facts, INF, ONE, SEL, ZERO, add, addc, atom, batom, bitop, const, cval, dom_vals, full_dom, is_const,
                  mk, neg, of_atom, op_atom, p_eq, p_ge, p_ne, p_not, p_b, popcount, rng, scale, shl, show, shr, sub,
                  subst, subst_delta, trange, wrap, Node, bitvec, bits_lin, from_bits, leaves)

sys.setrecursionlimit(20000)

ISIZE_MAX = (1 << 63) - 1


class Undecided(Exception):
    """The analysis met something it has no abstraction for, or exceeded its budget."""


class Split(Exception):
    def __init__(self, refs):
        self.refs = refs


class St:
    __slots__ = ('mem', 'facts', 'log', 'serial')

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.log = self.log
        s.serial = self.serial
        return s

    def ev(self, *e):
        self.log = (self.log, e)

    def events(self, until=None):
        out = []
        l = self.log
        while l is not until and l is not None:
            out.append(l[1])
            l = l[0]
        out.reverse()
        return out


def new_state():
    s = St()
    s.mem = {}
    s.facts = Facts()
    s.log = None
    s.serial = 0
    return s


def refine(st, ref):
    f = st.facts
    for r in ref:
        if isinstance(r, tuple) and r and r[0] == 'dom':
            if not f.apply((r,)):
                return False
        elif not f.assume(r):
            return False
    return True


UNIT = mk('tup', ())


def tup(*xs):
    return mk('tup', tuple(xs))


def adt(path, v, *fs):
    return mk('adt', path, v, tuple(fs))


OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
NONZERO = 'std::num::NonZero'
NOMERR = 'nom::Err'
NONE = adt(OPTION, 0)


def some(v):
    return adt(OPTION, 1, v)


def ok(v):
    return adt(RESULT, 0, v)


def err(v):
    return adt(RESULT, 1, v)


def nonzero(l):
    return adt(NONZERO, 0, l)


def is_int(v):
    return isinstance(v, Node) and v.tag == 'lin'


def is_bool(v):
    return v is True or v is False or (isinstance(v, Node) and v.tag in ('ge', 'eq', 'ne', 'b'))


def npath(s):
    """Normalised path of a library item: crate facade names unified, generic arguments removed."""
    s = s.replace('bitflags::__private::core::', 'std::')
    s = re.sub(r'\b(?:core|alloc)::', 'std::', s)
    s = re.sub(r'::<[^<>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>[^<>]*)*>(?=::|$)', '', s)
    return s


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.T = d['types']
        self.I = d['insts']
        self.fns = {}
        for f in d['fns']:
            self.fns.setdefault(f['path'], f)
        self.items = d['items']
        self.adts = {}
        for t in self.T:
            if t['k'] == 'adt' and t.get('variants') is not None:
                o = self.adts.get(t['path'])
                if o is None or sum(len(v['fields']) for v in o['variants']) < sum(
                        len(v['fields']) for v in t['variants']):
                    self.adts[t['path']] = t
        self._cfg = {}
        self.usize = next(i for i, t in enumerate(self.T) if t['k'] == 'int' and t['s'] == 'usize')

    # type helpers
    def ty_range(self, t):
        """(bits, signed) of an integer-like type."""
        x = self.T[t]
        if x['k'] == 'int':
            return x['bits'], x['signed']
        if x['k'] == 'char':
            return 32, False
        if x['k'] == 'bool':
            return 8, False
        return None

    def strip(self, path):
        return path

    def find_fn(self, suffix):
        r = [f for p, f in self.fns.items() if re.sub(r"::<'\w+>|<'\w+>", '', p).endswith(suffix)]
        return r

    # control flow
    def cfg(self, i):
        c = self._cfg.get(i)
        if c is None:
            c = self._cfg[i] = Cfg(self.I[i])
        return c


def succs(t):
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'switch':
        return [x[1] for x in t['ts']] + [t['else']]
    if k in ('call', 'drop', 'assert'):
        return [] if t.get('t') is None else [t['t']]
    return []


class Cfg:
    """Natural loops and liveness of one body."""

    def __init__(self, inst):
        blocks = inst['blocks']
        n = len(blocks)
        self.succ = [succs(b['t']) for b in blocks]
        # dominators (iterative, on reachable blocks in reverse postorder)
        order = []
        seen = [False] * n
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.order = order
        num = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        idom = {order[0]: order[0]} if order else {}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if idom[b] == b:
                    return False
                b = idom[b]

        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if num[s] <= num[b] and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._live = None
        self.inst = inst

    def live_in(self, head):
        """Locals whose value may be read from `head` on."""
        if self._live is None:
            self._liveness()
        return self._live[head]

    def _liveness(self):
        inst = self.inst
        use, deff = {}, {}
        for b in self.order:
            u, d = set(), set()

            def place_use(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1:]:
                    if e[0] == 'i' and e[1] not in d:
                        u.add(e[1])

            def place_def(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    place_use(p)

            def operand(o):
                if o['k'] in ('copy', 'move'):
                    place_use(o['p'])

            blk = inst['blocks'][b]
            for s in blk['st']:
                if s['k'] == '=':
                    r = s['r']
                    for k in ('o', 'l', 'r'):
                        if isinstance(r.get(k), dict):
                            operand(r[k])
                    if 'fs' in r:
                        for o in r['fs']:
                            operand(o)
                    if 'p' in r:
                        place_use(r['p'])
                    place_def(s['p'])
                elif 'p' in s:
                    place_use(s['p'])
            t = blk['t']
            if t['k'] == 'call':
                operand(t['f'])
                for a in t['args']:
                    operand(a)
                place_def(t['d'])
            elif t['k'] == 'switch':
                operand(t['o'])
            elif t['k'] == 'assert':
                operand(t['c'])
            elif t['k'] == 'return':
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._live = live


class Frame:
    __slots__ = ('inst', 'body', 'depth', 'cfg', 'caller', 'site')


class Outcome:
    __slots__ = ('kind', 'val', 'st', 'block')

    def __init__(self, kind, val, st, block=None):
        self.kind = kind
        self.val = val
        self.st = st
        self.block = block


class Interp:
    def __init__(self, prog):
        self.P = prog
        self.T = prog.T
        self.I = prog.I
        self.cuts = {}            # function path -> handler
        self.panics = []
        self.entry = None
        self.bounded = 0  # loops are followed this many times, and not generalised
        self.budget = None
        self.early = []
        self.reserved = []
        self.reservations = 0          # (function, site, message, facts)
        self.unknown = {}         # unmodelled callees
        self.steps = 0
        self.max_steps = 3_000_000
        self.stack = []
        self.loops = {}
        self.merge_local = True
        self.no_merge = set()
        self.visited = set()      # (inst, block) analysed
        self.calls = set()        # (inst, block, callee path)
        self.mute = 0
        self.sel_entry = {}
        self.sym_hooks = {}
        self.type_facts = {}
        from . import models
        self.models = models.TABLE
        self.model_res = models.PATTERNS
        self._mcache = {}
        self.unresolved_hook = None
        self.call_hook = None
        self.frames = {}
        self.kctx = ()            # counters of the enclosing abstract loop iterations
        from . import loops as _l
        self._loops = _l

    def fresh(self, st):
        """Key of a new unknown: unique per event on a path and per iteration of the enclosing loops."""
        return mk('fresh', st.serial, self.kctx)

    # ------------------------------------------------------------ values

    def decide(self, st, p):
        d = st.facts.decide(p)
        if d is None:
            raise Split([[p], [p_not(p)]])
        return d

    def res(self, st, v):
        while isinstance(v, Node) and v.tag == 'ch':
            sel, vals = v.a
            m = st.facts.get(sel)
            i = 0
            got = None
            n = m
            while n:
                if n & 1:
                    if got is None:
                        got = vals[i]
                    elif got is not vals[i]:
                        return v
                n >>= 1
                i += 1
            if got is None:
                raise Undecided('empty choice')
            v = got
        return v

    def force(self, st, v):
        v = self.res(st, v)
        if isinstance(v, Node) and v.tag == 'ch':
            self.split_ch(st, v, lambda x: x)
        return v

    def split_ch(self, st, v, key):
        sel, vals = v.a
        m = st.facts.get(sel)
        groups = {}
        for i, x in enumerate(vals):
            if (m >> i) & 1:
                k = key(x)
                groups[k] = groups.get(k, 0) | (1 << i)
        raise Split([[('dom', sel, g)] for g in groups.values()])

    def map_ch(self, st, v, f):
        sel, vals = v.a
        m = st.facts.get(sel)
        return mk('ch', sel, tuple(f(x) if (m >> i) & 1 else UNIT for i, x in enumerate(vals)))

    def deep(self, st, v):
        """Resolve decided choices inside a value."""
        v = self.res(st, v)
        if not isinstance(v, Node):
            return v
        if v.tag == 'lin':
            return st.facts.norm(v)
        if v.tag in ('adt',):
            return mk('adt', v.a[0], v.a[1], tuple(self.deep(st, x) for x in v.a[2]))
        if v.tag in ('tup', 'arr'):
            return mk(v.tag, tuple(self.deep(st, x) for x in v.a[0]))
        if v.tag == 'ref':
            return mk('ref', self.deep(st, v.a[0]))
        if v.tag in ('wire', 'str'):
            return mk(v.tag, *[st.facts.norm(x) if is_int(x) else x for x in v.a])
        if v.tag in ('vec', 'slice'):
            return mk(v.tag, tuple(self.deep(st, x) for x in v.a[0]))
        if v.tag in ('E', 'Rep', 'Sq', 'Lp', 'Sl', 'Rv'):
            return mk(v.tag, *[self.deep(st, x) if isinstance(x, Node) and x.tag not in ('atom', 'loopid') else x
                               for x in v.a])
        return v

    def discr_atom(self, at, n):
        return atom(0, n - 1, 'discr', at)

    def make_sym(self, st, ty, *key):
        """A fresh unknown of a type, identified by the key."""
        t = self.T[ty]
        k = t['k']
        if k == 'int':
            lo, hi = trange(t['bits'], t['signed'])
            if t['s'] == 'usize':
                pass
            return of_atom(atom(lo, hi, 'sym', *key))
        if k == 'bool':
            return p_b(batom(*key))
        if k == 'char':
            return of_atom(atom(0, 0x10FFFF, 'sym', *key))
        if k == 'ref':
            to = self.T[t['to']]
            if to['k'] == 'str':
                return mk('str', 's', atom(0, INF, 'strsym', *key))
            if to['k'] == 'slice':
                if self.T[to['elem']]['s'] == 'u8':
                    b = atom(0, INF, 'slicesym', *key)
                    n = of_atom(atom(0, ISIZE_MAX, 'len', b))
                    return mk('wire', b, ZERO, n)
                return mk('slice', (self.sq(to['elem'], *key),))
            if t['mut']:
                cell = ('g',) + key
                if cell not in st.mem:
                    st.mem[cell] = self.make_sym(st, t['to'], 'deref', *key)
                return mk('mref', cell, ())
            if to['k'] == 'dyn':
                return mk('opq', 'dyn', *key)
            return mk('ref', self.make_sym(st, t['to'], 'deref', *key))
        if k == 'tuple':
            return mk('tup', tuple(self.make_sym(st, x, 'fld', i, *key) for i, x in enumerate(t['fields'])))
        if k == 'adt':
            p = t['path']
            if p == NONZERO:
                ar = self.ty_args(t)
                b, s = self.P.ty_range(ar[0]) if ar and self.P.ty_range(ar[0]) else (32, False)
                lo, hi = trange(b, s)
                return nonzero(of_atom(atom(1 if not s else lo, hi, 'sym', *key)))
            if p == 'std::vec::Vec':
                return mk('vec', (self.sq(self.ty_args(t)[0], *key),))
            if p in ('std::collections::HashMap', 'std::collections::BTreeMap'):
                return mk('map', p, atom(0, INF, 'mapsym', *key), ())
            if p in ('std::string::String',):
                return mk('str', 's', atom(0, INF, 'strsym', *key))
            return mk('sym', atom(0, INF, 'sym', *key), ty)
        if k == 'fndef':
            return mk('fn', ty)
        if k == 'never':
            return mk('opq', 'never')
        return mk('sym', atom(0, INF, 'sym', *key), ty)

    def ty_args(self, t):
        """Type arguments of an adt type (lifetimes are not listed)."""
        return [a for a in t.get('args', []) if isinstance(a, int)]

    def sq(self, elemty, *key):
        a = atom(0, INF, 'seq', *key)
        return mk('Sq', a, of_atom(atom(0, ISIZE_MAX, 'len', a)), elemty)

    def hook(self, path):
        return self.sym_hooks.get(path)

    def expand(self, st, v, variant=None):
        """Turn an unknown struct (or an enum of known variant) into an adt node."""
        at, ty = v.a
        t = self.T[ty]
        if t['k'] == 'closure':
            return mk('clo', ty, tuple(self.make_sym(st, u, 'fld', i, at) for i, u in enumerate(t['upvars'])))
        if t['k'] != 'adt':
            raise Undecided('expand %s' % t['s'])
        h = self.sym_hooks.get(t['path'])
        if h is not None:
            r = h(self, st, v)
            if r is not None:
                return r
        vs = t['variants']
        if t['enum']:
            if variant is None:
                variant = self.variant_of(st, v)
        else:
            variant = 0
        fs = vs[variant]['fields']
        r = mk('adt', t['path'], variant,
               tuple(self.make_sym(st, f['ty'], 'fld', variant, i, at) for i, f in enumerate(fs)))
        h = self.type_facts.get(t['path'])
        if h is not None:
            h(self, st, r)
        return r

    def variant_of(self, st, v):
        """Variant index of an enum value; splits if it is not decided."""
        v = self.res(st, v)
        if v.tag == 'ch':
            self.split_ch(st, v, lambda x: self._variant_key(st, x))
        if v.tag == 'adt':
            return v.a[1]
        if v.tag == 'sym':
            at, ty = v.a
            t = self.T[ty]
            if t['k'] == 'adt' and t['path'] in self.sym_hooks:
                e = self.sym_hooks[t['path']](self, st, v)
                if e is not None:
                    return self.variant_of(st, e)
            n = len(t['variants'])
            if n == 1:
                return 0
            d = self.discr_atom(at, n)
            c = st.facts.value(of_atom(d))
            if c is not None:
                return c
            raise Split([[p_eq(addc(of_atom(d), -i))] for i in range(n)])
        raise Undecided('variant of %s' % show(v))

    def _variant_key(self, st, x):
        if isinstance(x, Node) and x.tag == 'adt':
            return x.a[1]
        return x

    def variant_lin(self, st, v, ty):
        """Discriminant value as a Lin, splitting as little as possible."""
        v = self.res(st, v)
        if v.tag == 'ref':
            raise Undecided('discriminant of a reference')
        if v.tag == 'adt':
            return const(self.discr_val(v.a[0], v.a[1], ty))
        if v.tag == 'sym':
            at, sty = v.a
            t = self.T[sty]
            if t['k'] == 'adt' and t['path'] in self.sym_hooks:
                e = self.sym_hooks[t['path']](self, st, v)
                if e is not None:
                    return self.variant_lin(st, e, ty)
            if t['k'] != 'adt':
                raise Undecided('discriminant of %s' % t['s'])
            n = len(t['variants'])
            d = self.discr_atom(at, n)
            vals = [x['discr'] for x in t['variants']]
            if vals == list(range(n)):
                return of_atom(d)
            return mk('ch', d, tuple(const(x) for x in vals))
        if v.tag == 'ch':
            sel, vals = v.a
            m = st.facts.get(sel)
            if all(isinstance(x, Node) and x.tag == 'adt' for i, x in enumerate(vals) if (m >> i) & 1):
                return mk('ch', sel, tuple(
                    const(self.discr_val(x.a[0], x.a[1], ty)) if (m >> i) & 1 else ZERO for i, x in enumerate(vals)))
            self.split_ch(st, v, lambda x: self._variant_key(st, x))
        if v.tag == 'opq':
            return of_atom(atom(0, 255, 'sym', 'discr', v))
        raise Undecided('discriminant of %s' % show(v))

    def discr_val(self, path, variant, ty=None):
        t = self.T[ty] if ty is not None else None
        if t is None or t['k'] != 'adt' or t['path'] != path:
            t = self.P.adts.get(path)
        if t is None:
            return variant
        d = t['variants'][variant]['discr']
        return variant if d is None else d

    def field(self, st, v, i, variant=None):
        v = self.res(st, v)
        t = v.tag
        if t == 'adt':
            return v.a[2][i]
        if t in ('tup', 'arr'):
            return v.a[0][i]
        if t == 'clo':
            return v.a[1][i]
        if t == 'sym':
            e = self.expand(st, v, variant)
            return self.field(st, e, i, variant)
        if t == 'ch':
            sel, vals = v.a
            m = st.facts.get(sel)
            alt = [x for j, x in enumerate(vals) if (m >> j) & 1]
            if all(isinstance(x, Node) and x.tag in ('adt', 'tup') for x in alt) and len(
                    {(x.a[0], x.a[1]) if x.tag == 'adt' else 'tup' for x in alt}) == 1:
                return self.res(st, self.map_ch(st, v, lambda x: x.a[2][i] if x.tag == 'adt' else x.a[0][i]))
            self.split_ch(st, v, lambda x: self._variant_key(st, x))
        if t == 'opq':
            return mk('opq', 'fld', i, v)
        if t == 'it':
            return mk('opq', 'itfld', i, v)
        raise Undecided('field %s of %s' % (i, show(v)))

    # ------------------------------------------------------------ places

    def load(self, st, cell, path):
        v = st.mem.get(cell)
        if v is None:
            raise Undecided('uninitialised %s' % (cell,))
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if e[0] == 'f':
            return self.field(st, v, e[1], e[2] if len(e) > 2 else None)
        if e[0] == 'i':
            return self.index(st, v, e[1])
        raise Undecided('projection %s' % (e,))

    def store(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self._upd(st, st.mem.get(cell), path, val)

    def _upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        v = self.force(st, v)
        if v.tag == 'sym':
            v = self.expand(st, v, e[2] if len(e) > 2 else None)
        if e[0] == 'f':
            i = e[1]
            if v.tag == 'adt':
                fs = list(v.a[2])
                fs[i] = self._upd(st, fs[i], path[1:], val)
                return mk('adt', v.a[0], v.a[1], tuple(fs))
            if v.tag == 'clo':
                fs = list(v.a[1])
                fs[i] = self._upd(st, fs[i], path[1:], val)
                return mk('clo', v.a[0], tuple(fs))
            if v.tag in ('tup', 'arr'):
                fs = list(v.a[0])
                fs[i] = self._upd(st, fs[i], path[1:], val)
                return mk(v.tag, tuple(fs))
        if e[0] == 'i':
            c = cval(e[1])
            if v.tag == 'arr' and c is not None and 0 <= c < len(v.a[0]):
                fs = list(v.a[0])
                fs[c] = self._upd(st, fs[c], path[1:], val)
                return mk('arr', tuple(fs))
            if v.tag in ('vec', 'slice', 'arr'):
                # an element is overwritten: nothing is known about the contents any more
                n = self.seq_len(st, self.parts(st, v))
                a = atom(0, INF, 'seq', 'upd', v, e[1], val if isinstance(val, Node) else str(val))
                return mk(v.tag if v.tag != 'arr' else 'vec', (mk('Sq', a, n, -1),))
        raise Undecided('update of %s' % show(v))

    def index(self, st, v, i):
        v = self.res(st, v)
        if v.tag == 'wire':
            base, off, end = v.a
            return self.byte(base, add(off, i))
        if v.tag == 'arr':
            c = st.facts.value(i)
            if c is None or not 0 <= c < len(v.a[0]):
                raise Undecided('array index')
            return v.a[0][c]
        if v.tag in ('vec', 'slice'):
            return self.elem(st, v.a[0], i)
        if v.tag == 'ch':
            self.split_ch(st, v, lambda x: x)
        raise Undecided('index of %s' % show(v))

    def byte(self, base, off):
        return of_atom(atom(0, 255, 'rd', base, off, 1, 'u'))

    def read_place(self, fr, st, p):
        """Value of a place, and whether it is an unsized place (behind a fat pointer)."""
        v = st.mem.get((fr.depth, p[0]))
        if v is None:
            raise Undecided('uninitialised _%d in %s' % (p[0], fr.body['path']))
        unsized = False
        variant = None
        for e in p[1:]:
            k = e[0]
            if k == '*':
                v = self.res(st, v)
                variant = None
                t = v.tag if isinstance(v, Node) else ''
                if t == 'ref':
                    v = v.a[0]
                    unsized = False
                elif t == 'mref':
                    v = self.load(st, v.a[0], v.a[1])
                    unsized = False
                elif t in ('wire', 'str', 'slice'):
                    unsized = True
                elif t == 'ch':
                    alts = self.alts(st, v)
                    if all(isinstance(x, Node) and x.tag == 'ref' for x in alts):
                        v = self.map_ch(st, v, lambda x: x.a[0])
                        v = self.res(st, v)
                    elif all(isinstance(x, Node) and x.tag in ('wire', 'str', 'slice') for x in alts):
                        unsized = True
                    else:
                        self.force(st, v)
                elif t == 'opq':
                    v = mk('opq', 'deref', v)
                elif t == 'sym':
                    to = self.T[v.a[1]]
                    if to['k'] in ('ref', 'ptr'):
                        v = self.make_sym(st, to['to'], 'deref', v.a[0])
                    else:
                        raise Undecided('deref of %s' % to['s'])
                elif t == 'adt' and v.a[0] == 'std::boxed::Box':
                    v = v.a[2][0]
                else:
                    raise Undecided('deref of %s' % show(v))
            elif k == 'f':
                v = self.field(st, v, e[1], variant)
                variant = None
                unsized = False
            elif k == 'v':
                variant = e[1]
            elif k == 'i':
                v = self.index(st, v, self.force(st, st.mem[(fr.depth, e[1])]))
                unsized = False
            elif k == 'ci':
                i = const(e[1])
                if e[3]:
                    i = sub(self.length(st, v), const(e[1]))
                v = self.index(st, v, i)
                unsized = False
            elif k == 'ss':
                n = self.length(st, v)
                hi = sub(n, const(e[2])) if e[3] else const(e[2])
                v = self.subslice(st, v, const(e[1]), hi)
                unsized = True
            elif k == 'oc':
                pass
            else:
                raise Undecided('projection %s' % (e,))
        return v, unsized

    def alts(self, st, v):
        sel, vals = v.a
        m = st.facts.get(sel)
        return [x for i, x in enumerate(vals) if (m >> i) & 1]

    def place_loc(self, fr, st, p):
        """(cell, path) of a place for writing or mutable borrowing."""
        cell = (fr.depth, p[0])
        path = []
        variant = None
        for e in p[1:]:
            k = e[0]
            if k == '*':
                v = self.force(st, self.load(st, cell, path))
                if v.tag == 'mref':
                    cell, path = v.a[0], list(v.a[1])
                elif v.tag == 'adt' and v.a[0] == 'std::boxed::Box':
                    path.append(('f', 0))
                else:
                    return None, v
                variant = None
            elif k == 'f':
                path.append(('f', e[1], variant) if variant is not None else ('f', e[1]))
                variant = None
            elif k == 'v':
                variant = e[1]
            elif k == 'i':
                path.append(('i', self.force(st, st.mem[(fr.depth, e[1])])))
            elif k == 'ci' and not e[3]:
                path.append(('i', const(e[1])))
            elif k == 'oc':
                pass
            else:
                raise Undecided('mutable projection %s' % (e,))
        return cell, tuple(path)

    def write_place(self, fr, st, p, val):
        if len(p) == 1:
            st.mem[(fr.depth, p[0])] = val
            return
        cell, path = self.place_loc(fr, st, p)
        if cell is None:
            if path.tag == 'opq':
                return
            raise Undecided('write through %s' % show(path))
        self.store(st, cell, path, val)

    # ------------------------------------------------------------ sequences

    def parts(self, st, v):
        v = self.res(st, v)
        if v.tag in ('vec', 'slice'):
            return v.a[0]
        if v.tag == 'arr':
            return tuple(mk('E', x) for x in v.a[0])
        if v.tag == 'ref':
            return self.parts(st, v.a[0])
        if v.tag == 'mref':
            return self.parts(st, self.load(st, v.a[0], v.a[1]))
        if v.tag == 'ch':
            self.force(st, v)
        if v.tag == 'sym':
            return (mk('Sq', atom(0, INF, 'seq', v.a[0]), of_atom(atom(0, ISIZE_MAX, 'len', v.a[0])), -1),)
        if v.tag == 'opq':
            a = atom(0, INF, 'seq', v)
            return (mk('Sq', a, of_atom(atom(0, ISIZE_MAX, 'len', a)), -1),)
        raise Undecided('sequence %s' % show(v))

    def part_len(self, p):
        t = p.tag
        if t == 'E':
            return ONE
        if t == 'Rep':
            return p.a[1]
        if t == 'Sq':
            return p.a[1]
        if t == 'Lp':
            return p.a[3]
        if t == 'Sl':
            return p.a[2]
        if t == 'Rv':
            return p.a[1]
        raise Undecided(t)

    def seq_len(self, st, parts):
        n = ZERO
        for p in parts:
            n = add(n, self.part_len(p))
        return n

    def length(self, st, v):
        v = self.res(st, v)
        if v.tag == 'wire':
            return sub(v.a[2], v.a[1])
        if v.tag == 'str':
            return self.str_len(v)
        if v.tag == 'ch':
            self.force(st, v)
        return self.seq_len(st, self.parts(st, v))

    def str_len(self, v):
        if v.a[0] == 'w':
            return v.a[3]
        if v.a[0] == 'c':
            return const(len(v.a[1].encode()))
        return of_atom(atom(0, ISIZE_MAX, 'len', v.a[1]))

    def elem(self, st, parts, i):
        """Element at index i (known to be in range)."""
        i = st.facts.norm(i)
        if len(parts) == 1 or is_const(i) and parts and parts[0].tag != 'E':
            pass
        k = 0
        while True:
            if k >= len(parts):
                raise Undecided('element out of range')
            p = parts[k]
            n = self.part_len(p)
            if k == len(parts) - 1:
                break
            if self.decide(st, p_ge(addc(sub(n, i), -1))):
                break
            i = sub(i, n)
            k += 1
        t = p.tag
        if t in ('E', 'Rep'):
            return p.a[0]
        if t == 'Sq':
            a, _n, ty = p.a
            if ty == -1:
                return mk('opq', 'elem', a, i)
            return self.make_sym(st, ty, 'elem', a, i)
        if t == 'Sl':
            return self.elem(st, p.a[0], add(p.a[1], i))
        if t == 'Rv':
            return self.elem(st, p.a[0], addc(sub(p.a[1], i), -1))
        if t == 'Lp':
            return self._loops.elem(self, st, p, i)
        raise Undecided(t)

    def subslice(self, st, v, lo, hi):
        v = self.res(st, v)
        if v.tag == 'wire':
            base, off, end = v.a
            return mk('wire', base, add(off, lo), add(off, hi))
        if v.tag == 'str':
            if v.a[0] == 'w':
                return mk('str', 'w', v.a[1], add(v.a[2], lo), sub(hi, lo))
            return mk('str', 's', atom(0, INF, 'substr', v, lo, hi))
        return mk('slice', self.slice_parts(st, self.parts(st, v), lo, sub(hi, lo)))

    def slice_parts(self, st, parts, lo, n):
        """n elements from lo on."""
        lo, n = st.facts.norm(lo), st.facts.norm(n)
        tot = self.seq_len(st, parts)
        if st.facts.value(lo) == 0 and st.facts.value(sub(tot, n)) == 0:
            return parts
        if st.facts.value(n) == 0:
            return ()
        cl, cn = cval(lo), cval(n)
        if cl is not None and cn is not None and all(p.tag == 'E' for p in parts):
            return parts[cl:cl + cn]
        if len(parts) == 1 and parts[0].tag == 'Rep':
            return (mk('Rep', parts[0].a[0], n),)
        if len(parts) == 1 and parts[0].tag == 'Sl':
            return (mk('Sl', parts[0].a[0], add(parts[0].a[1], lo), n),)
        if cl is not None and parts and all(p.tag == 'E' for p in parts[:cl]) and len(parts) > cl:
            rest = parts[cl:]
            if st.facts.value(sub(self.seq_len(st, rest), n)) == 0:
                return rest
        return (mk('Sl', parts, lo, n),)

    # ------------------------------------------------------------ constants and operands

    def constant(self, fr, st, c):
        k = c['k']
        if k == 'int':
            t = self.T[c['ty']]
            if t['k'] == 'bool':
                return bool(c['v'])
            if t['k'] == 'float':
                return mk('flt', c['v'], t['s'])
            if t['k'] == 'int':
                return const(trunc(int(c['v']), t['bits'], t['signed']))
            return const(int(c['v']))
        if k == 'str':
            return mk('str', 'c', c['v'])
        if k == 'bytes':
            return mk('slice', tuple(mk('E', const(b)) for b in c['v']))
        if k == 'slice':
            return mk('slice', tuple(mk('E', self.constant(fr, st, x)) for x in c['v']))
        if k == 'ref':
            v = self.constant(fr, st, c['v'])
            t = self.T[c['ty']]
            if t['k'] == 'ref' and self.T[t['to']]['k'] == 'slice' and v.tag == 'arr':
                return mk('slice', tuple(mk('E', x) for x in v.a[0]))
            return mk('ref', v)
        if k == 'fn':
            return mk('fn', c['ty'])
        if k == 'closure':
            return mk('clo', c['ty'], tuple(self.constant(fr, st, x) for x in c.get('fields', [])))
        if k == 'agg':
            t = self.T[c['ty']]
            fs = tuple(self.constant(fr, st, x) for x in c['fields'])
            if t['k'] == 'adt':
                return mk('adt', t['path'], c['variant'] or 0, fs)
            if t['k'] == 'array':
                return mk('arr', fs)
            if t['k'] == 'closure':
                return mk('clo', c['ty'], fs)
            return mk('tup', fs)
        if k == 'promoted':
            pb = fr.body['promoted'][c['i']]
            return self.run_const(fr, st, pb)
        if k == 'uneval':
            if c.get('inst') is not None:
                return self.run_const(fr, st, self.I[c['inst']])
            return mk('opq', 'const', c.get('s', ''))
        if k == 'static':
            return mk('opq', 'static', c.get('path', c.get('s', '')))
        t = self.T[c['ty']] if isinstance(c.get('ty'), int) else None
        if t is not None:
            if t['k'] == 'tuple' and not t['fields']:
                return UNIT
            if t['k'] == 'adt' and not t['enum'] and t['variants'] and not t['variants'][0]['fields']:
                return mk('adt', t['path'], 0, ())
        return mk('opq', 'const', c.get('s', ''))

    def run_const(self, fr, st, body):
        """Evaluate a constant body in a scratch state."""
        s = new_state()
        s.facts = st.facts.copy()
        f = Frame()
        f.inst = -1
        f.body = body
        f.depth = fr.depth + 1
        f.cfg = Cfg(body)
        f.caller = fr
        f.site = None
        outs = self.run(f, 0, s)
        rets = [o for o in outs if o.kind == 'ret']
        if len(rets) != 1:
            return mk('opq', 'const', body.get('path', '?'))
        return rets[0].val

    def operand(self, fr, st, o):
        k = o['k']
        if k == 'const':
            return self.constant(fr, st, o['v'])
        if k in ('copy', 'move'):
            return self.read_place(fr, st, o['p'])[0]
        if k == 'rtcheck':
            return False
        raise Undecided('operand ' + k)

    # ------------------------------------------------------------ rvalues

    def rvalue(self, fr, st, r):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k == 'ref':
            if r['mut']:
                # a mutable reborrow of something shared or fat is the same pointer
                cell, path = self.place_loc(fr, st, r['p'])
                if cell is None:
                    return path
                return mk('mref', cell, path)
            v, unsized = self.read_place(fr, st, r['p'])
            if unsized:
                return v
            return mk('ref', v)
        if k == 'rawptr':
            v, unsized = self.read_place(fr, st, r['p'])
            return v if unsized else mk('ref', v)
        if k == 'discr':
            v, _ = self.read_place(fr, st, r['p'])
            return self.variant_lin(st, v, r['ty'])
        if k == 'agg':
            fs = tuple(self.operand(fr, st, x) for x in r['fs'])
            a = r['a']
            if a == 'adt':
                t = self.T[r['ty']]
                if t['path'] == NONZERO:
                    return mk('adt', NONZERO, 0, fs)
                return mk('adt', t['path'], r['v'], fs)
            if a == 'tuple':
                return mk('tup', fs)
            if a == 'array':
                return mk('arr', fs)
            if a == 'closure':
                return mk('clo', r['ty'], fs)
            return mk('opq', 'agg', a) if a != 'rawptr' else fs[0]
        if k == 'repeat':
            v = self.operand(fr, st, r['o'])
            n = r['n']
            if isinstance(n, int) and n <= 256:
                return mk('arr', (v,) * n)
            return mk('opq', 'repeat')
        if k == 'bin':
            return self.binop(fr, st, r)
        if k == 'un':
            v = self.operand(fr, st, r['o'])
            op = r['op']
            if op == 'Not':
                v = self.force(st, v)
                if is_bool(v):
                    return p_not(v)
                if is_int(v):
                    bits, signed = self.P.ty_range(r['ty'])
                    return bitop('xor', v, const(-1 if signed else (1 << bits) - 1), bits, signed)
                return mk('opq', 'not', v)
            if op == 'Neg':
                v = self.force(st, v)
                if is_int(v):
                    return neg(v)
                return mk('opq', 'neg', v)
            if op == 'PtrMetadata':
                v = self.res(st, v)
                if v.tag == 'ref':
                    v = v.a[0]
                return self.length(st, v)
            raise Undecided('unary ' + op)
        if k == 'cast':
            return self.cast(fr, st, r)
        if k == 'len':
            v, _ = self.read_place(fr, st, r['p'])
            return self.length(st, v)
        if k == 'tls':
            return mk('opq', 'tls')
        raise Undecided('rvalue ' + k)

    def cast(self, fr, st, r):
        v = self.operand(fr, st, r['o'])
        c = r['c']
        if c == 'IntToInt':
            v = self.force(st, v)
            if is_bool(v):
                return const(1 if self.decide(st, v) else 0)
            if not is_int(v):
                return mk('opq', 'cast', v, self.T[r['ty']]['s'])
            rg = self.P.ty_range(r['ty'])
            if rg is None:
                return mk('opq', 'cast', v)
            return self.to_range(st, v, rg[0], rg[1], self.P.ty_range(r['from']) if 'from' in r else None)
        if c.startswith('PointerCoercion(Unsize'):
            v = self.res(st, v)
            t = self.T[r['ty']]
            if t['k'] == 'ref':
                to = self.T[t['to']]
                if to['k'] == 'slice' and v.tag == 'ref' and v.a[0].tag == 'arr':
                    return mk('slice', tuple(mk('E', x) for x in v.a[0].a[0]))
                if to['k'] == 'slice' and v.tag == 'ref' and v.a[0].tag == 'ch':
                    self.force(st, v.a[0])
            return v
        if c.startswith('PointerCoercion') or c in ('Transmute', 'PtrToPtr', 'FnPtrToPtr'):
            return v
        return mk('opq', 'cast', v if isinstance(v, Node) else str(v), self.T[r['ty']]['s'])

    def to_range(self, st, v, bits, signed, frm=None):
        lo, hi = trange(bits, signed)
        v = st.facts.norm(v)
        a, b = st.facts.range(v)
        if a >= lo and b <= hi:
            return v
        # a sign change: the two halves are the cases a reader thinks in
        if frm is not None and bits >= frm[0]:
            if a < 0 and not signed and b <= hi and a >= -(1 << bits):
                if self.decide(st, p_ge(v)):
                    return v
                return addc(v, 1 << bits)
            if signed and not frm[1] and bits == frm[0] and a >= 0 and b < (1 << bits):
                if self.decide(st, p_ge(addc(neg(v), hi))):
                    return v
                return addc(v, -(1 << bits))
        return wrap(v, bits, signed)

    def binop(self, fr, st, r):
        x = self.operand(fr, st, r['l'])
        y = self.operand(fr, st, r['r'])
        op = r['op']
        x, y = self.res(st, x), self.res(st, y)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and isinstance(x, Node) and x.tag == 'ch' and is_int(y):
            # compare each alternative: choices stay undecided unless the comparison needs them
            c = {'Eq': p_eq, 'Ne': p_ne, 'Ge': p_ge}.get(op)
            if c is not None:
                alts = self.alts(st, x)
                rs = {st.facts.decide(c(sub(a, y))) for a in alts if is_int(a)}
                if len(rs) == 1 and None not in rs:
                    return rs.pop()
        x, y = self.force(st, x), self.force(st, y)
        ty = self.T[r['ty']]
        if is_bool(x) and is_bool(y):
            return self.boolop(st, op, x, y)
        if not (is_int(x) and is_int(y)):
            if op in ('Eq', 'Ne'):
                if x is y and ty['k'] != 'float':
                    return op == 'Eq'
                p = p_b(batom('cmp', x if isinstance(x, Node) else str(x), y if isinstance(y, Node) else str(y)))
                return p if op == 'Eq' else p_not(p)
            if op in ('Lt', 'Le', 'Gt', 'Ge'):
                return p_b(batom('cmp', op, x if isinstance(x, Node) else str(x), y if isinstance(y, Node) else str(y)))
            if op.endswith('WithOverflow'):
                return tup(mk('opq', op, x, y), p_b(batom('ovf', op, x, y)))
            return mk('opq', op, x if isinstance(x, Node) else str(x), y if isinstance(y, Node) else str(y))
        return self.int_op(st, op, x, y, self.P.ty_range(r['ty']))

    def boolop(self, st, op, x, y):
        if op == 'Eq' or op == 'Ne':
            if y is True:
                v = x
            elif y is False:
                v = p_not(x)
            elif x is True:
                v = y
            elif x is False:
                v = p_not(y)
            else:
                v = (self.decide(st, x) == self.decide(st, y))
            return v if op == 'Eq' else p_not(v)
        if op == 'BitAnd':
            if x is False or y is False:
                return False
            if x is True:
                return y
            if y is True:
                return x
            return y if self.decide(st, x) else False
        if op == 'BitOr':
            if x is True or y is True:
                return True
            if x is False:
                return y
            if y is False:
                return x
            return True if self.decide(st, x) else y
        if op == 'BitXor':
            return self.boolop(st, 'Ne', x, y)
        a, b = int(self.decide(st, x)), int(self.decide(st, y))
        return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]

    def int_op(self, st, op, x, y, rg):
        if op == 'Eq':
            return p_eq(sub(x, y))
        if op == 'Ne':
            return p_ne(sub(x, y))
        if op == 'Lt':
            return p_ge(addc(sub(y, x), -1))
        if op == 'Le':
            return p_ge(sub(y, x))
        if op == 'Gt':
            return p_ge(addc(sub(x, y), -1))
        if op == 'Ge':
            return p_ge(sub(x, y))
        bits, signed = rg
        lo, hi = trange(bits, signed)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Add':
                e = add(x, y)
            elif base == 'Sub':
                e = sub(x, y)
            else:
                e = self.mul(st, x, y)
            a, b = st.facts.range(e)
            if op.endswith('WithOverflow'):
                over = False
                if a < lo:
                    under = p_ge(addc(neg(e), lo - 1))
                    d = st.facts.decide(under)
                    if d is None:
                        over = under
                    elif d:
                        over = True
                if b > hi and over is not True:
                    top = p_ge(addc(e, -hi - 1))
                    d = st.facts.decide(top)
                    if d is True:
                        over = True
                    elif d is None:
                        if over is False:
                            over = top
                        else:
                            raise Split([[over], [p_not(over)]])
                return tup(e, over)
            if op.endswith('Unchecked'):
                return e
            if a >= lo and b <= hi:
                return e
            d1 = st.facts.decide(p_ge(addc(e, -lo)))
            d2 = st.facts.decide(p_ge(addc(neg(e), hi)))
            if d1 and d2:
                return e
            return wrap(e, bits, signed)
        if base == 'Div' or base == 'Rem':
            cx, cy = st.facts.value(x), st.facts.value(y)
            if cx is not None and cy:
                q = abs(cx) // abs(cy)
                q = q if (cx >= 0) == (cy >= 0) else -q
                return const(q if base == 'Div' else cx - cy * q)
            a, b = st.facts.range(x)
            if cy and cy > 0 and a >= 0 and cy & (cy - 1) == 0:
                n = cy.bit_length() - 1
                return shr(x, n, bits, False) if base == 'Div' else bitop('and', x, const(cy - 1), bits, signed)
            if base == 'Div':
                m = max(abs(a), abs(b))
                return op_atom('div', 0 if a >= 0 and st.facts.range(y)[0] >= 0 else -m, m, x, y)
            m = max(abs(a), abs(b))
            c, d = st.facts.range(y)
            m = min(m, max(abs(c), abs(d)) - 1) if max(abs(c), abs(d)) else m
            return op_atom('rem', 0 if a >= 0 else -m, m, x, y)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = self.bit_operand(st, x, bits), self.bit_operand(st, y, bits)
            return bitop({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[base], x, y, bits, signed)
        if base in ('Shl', 'Shr'):
            n = st.facts.value(y)
            if n is None:
                ys = st.facts.norm(y)
                lv = leaves(ys)
                if len(lv) == 1:
                    (b,) = lv
                    d = st.facts.get(b)
                    if isinstance(d, int) and d.bit_count() <= 16:
                        raise Split([[p_eq(addc(of_atom(b), -v))] for v in dom_vals(b, d)])
                return op_atom(base.lower(), lo, hi, x, y)
            n %= bits
            x = self.bit_operand(st, x, bits)
            return shl(x, n, bits, signed) if base == 'Shl' else shr(x, n, bits, signed)
        if base == 'Cmp':
            if self.decide(st, p_eq(sub(x, y))):
                return adt('std::cmp::Ordering', 1)
            return adt('std::cmp::Ordering', 0 if self.decide(st, p_ge(addc(sub(y, x), -1))) else 2)
        raise Undecided('binary ' + op)

    def bit_operand(self, st, x, bits):
        c = st.facts.value(x)
        if c is not None:
            return const(c)
        x = st.facts.norm(x)
        if len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
            # high bits that are known to be zero
            a = x.a[1][0][0]
            if a.a[0] >= 0 and a.a[2][0] != 'bits':
                w = st.facts.bounds(a)[1].bit_length()
                if w < a.a[1].bit_length() and w <= 8:
                    return bits_lin(a, 0, w)
        return x

    def mul(self, st, x, y):
        cx, cy = st.facts.value(x), st.facts.value(y)
        if cx is not None:
            return scale(y, cx)
        if cy is not None:
            return scale(x, cy)
        a, b = rng(x)
        c, d = rng(y)
        ps = [a * c, a * d, b * c, b * d]
        if x.id > y.id:
            x, y = y, x
        return op_atom('mul', min(ps), max(ps), x, y)

    # ------------------------------------------------------------ execution

    def run(self, fr, start, st, region=None, head=None, skip_head=False):
        """Interpret from a block; returns outcomes. With `region`, stop when leaving it or re-entering
        `head`."""
        work = [(start, 0, st, skip_head)]
        outs = []
        blocks = fr.body['blocks']
        loops = fr.cfg.loops
        while work:
            b, i, st, again = work.pop()
            if not again:
                    if b == head:
                        outs.append(Outcome('back', None, st, b))
                        continue
                    if region is not None and b not in region:
                        outs.append(Outcome('exit', None, st, b))
                        continue
                    if b in loops:
                        for o in self._loops.summarise(self, fr, b, loops[b], st):
                            if o.kind == 'exit':
                                if region is not None and o.block not in region:
                                    outs.append(o)
                                elif o.block == head:
                                    outs.append(Outcome('back', None, o.st, head))
                                else:
                                    work.append((o.block, 0, o.st, False))
                            else:
                                outs.append(o)
                        continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided('step budget')
            blk = blocks[b]
            if not self.mute:
                self.visited.add((fr.inst, b))
            sts = blk['st']
            try:
                while i < len(sts):
                    s = sts[i]
                    if s['k'] == '=':
                        v = self.rvalue(fr, st, s['r'])
                        self.write_place(fr, st, s['p'], v)
                    elif s['k'] == 'setdiscr':
                        self.set_discr(fr, st, s)
                    else:
                        raise Undecided('statement ' + s['k'])
                    i += 1
                nxt = self.terminator(fr, st, blk['t'], b)
            except Split as sp:
                for r in sp.refs:
                    s2 = st.copy()
                    if refine(s2, r):
                        work.append((b, i, s2, True))
                continue
            for n in nxt:
                if isinstance(n, Outcome):
                    outs.append(n)
                else:
                    work.append((n[0], 0, n[1], False))
        return outs

    def set_discr(self, fr, st, s):
        v, _ = self.read_place(fr, st, s['p'])
        raise Undecided('set discriminant')

    def terminator(self, fr, st, t, b):
        k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'return':
            v = st.mem.get((fr.depth, 0), UNIT)
            return [Outcome('ret', v, st)]
        if k == 'drop':
            return [(t['t'], st)]
        if k == 'unreachable' or k == 'unwind':
            return []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            c = self.force(st, self.operand(fr, st, t['c']))
            d = self.decide(st, c) if c is not True and c is not False else c
            if d == t['e']:
                return [(t['t'], st)]
            self.panic(fr, st, t, t['m'])
            return []
        if k == 'call':
            return self.call_term(fr, st, t, b)
        raise Undecided('terminator ' + k)

    def panic(self, fr, st, t, msg):
        if not self.mute:
            self.panics.append((fr, t.get('s'), msg, st))

    def switch(self, fr, st, t):
        v = self.res(st, self.operand(fr, st, t['o']))
        ts = t['ts']
        if isinstance(v, Node) and v.tag == 'ch':
            tab = dict((int(x), y) for x, y in ts)
            alts = self.alts(st, v)
            if all(is_int(a) and is_const(a) for a in alts):
                tgt = {tab.get(a.a[0], t['else']) for a in alts}
                if len(tgt) == 1:
                    return [(tgt.pop(), st)]
                self.split_ch(st, v, lambda a: tab.get(a.a[0], t['else']))
            v = self.force(st, v)
        if is_bool(v):
            d = self.decide(st, v)
            for x, y in ts:
                if bool(int(x)) == d:
                    return [(y, st)]
            return [(t['else'], st)]
        if is_int(v):
            c = st.facts.value(v)
            if c is not None:
                for x, y in ts:
                    if self.sw_val(x, t) == c:
                        return [(y, st)]
                return [(t['else'], st)]
            groups = {}
            rest = []
            tab = {}
            for x, y in ts:
                x = self.sw_val(x, t)
                groups.setdefault(y, []).append(x)
                tab[x] = y
                rest.append(p_ne(addc(v, -x)))
            refs = []
            nv = st.facts.norm(v)
            lv = leaves(nv)
            if len(lv) == 1:
                (lb,) = lv
                d = st.facts.get(lb)
                if isinstance(d, int):
                    from .dom import ev
                    g = {}
                    for x in dom_vals(lb, d):
                        tg = tab.get(ev(nv, {lb: x}), t['else'])
                        g[tg] = g.get(tg, 0) | (1 << (x - lb.a[0]))
                    if len(g) == 1:
                        return [(next(iter(g)), st)]
                    raise Split([[('dom', lb, m)] for m in g.values()])
            for y, xs in groups.items():
                for x in xs:
                    refs.append([p_eq(addc(v, -x))])
            refs.append(rest)
            live = []
            for r in refs:
                s2 = st.copy()
                if refine(s2, r):
                    live.append(r)
            if len(live) == 1:
                # decided by the facts
                r = live[0]
                refine(st, r)
                if r is rest:
                    return [(t['else'], st)]
                for x in tab:
                    if r == [p_eq(addc(v, -x))]:
                        return [(tab[x], st)]
            raise Split(live)
        if isinstance(v, Node) and v.tag == 'opq':
            outs = []
            for x, y in ts + [[None, t['else']]]:
                s2 = st.copy()
                outs.append((y, s2))
            return outs
        raise Undecided('switch on %s' % show(v))

    def sw_val(self, x, t):
        ty = self.T[t['ty']]
        x = int(x)
        if ty['k'] == 'int':
            return trunc(x, ty['bits'], ty['signed'])
        return x

    # ------------------------------------------------------------ calls

    def call_term(self, fr, st, t, b):
        fo = t['f']
        args = [self.operand(fr, st, a) for a in t['args']]
        if fo['k'] == 'const':
            f = self.constant(fr, st, fo['v'])
        else:
            f = self.res(st, self.operand(fr, st, fo))
        outs = self.call_value(fr, st, f, args, t)
        res = []
        for o in outs:
            if isinstance(o, Outcome) and o.kind != 'ret':
                res.append(o)
                continue
            v, s = (o.val, o.st) if isinstance(o, Outcome) else o
            if t.get('t') is None:
                continue
            self.write_place(fr, s, t['d'], v)
            res.append((t['t'], s))
        return res

    def call_value(self, fr, st, f, args, t):
        """Call a function value. Returns [(value, state)]."""
        f = self.force(st, f)
        if f.tag == 'ref':
            f = self.force(st, f.a[0])
        if f.tag == 'fn':
            return self.call_fn(fr, st, self.T[f.a[0]], args, t)
        if f.tag == 'clo':
            ti = self.T[f.a[0]]
            if ti.get('inst') is None:
                raise Undecided('closure without body')
            return self.call_closure(fr, st, f, None, args, t)
        if f.tag == 'mref':
            v = self.load(st, f.a[0], f.a[1])
            v = self.force(st, v)
            if v.tag == 'clo':
                return self.call_closure(fr, st, v, f, args, t)
            return self.call_value(fr, st, v, args, t)
        if f.tag in ('opq', 'sym'):
            return self.unknown_call(fr, st, 'fnptr ' + show(f), args, t)
        raise Undecided('call of %s' % show(f))

    def call_closure(self, fr, st, clo, ref, args, t):
        """args are the untupled arguments."""
        ti = self.T[clo.a[0]]
        inst = ti['inst']
        body = self.I[inst]
        envt = self.T[body['locals'][1]]
        if envt['k'] == 'ref':
            if envt['mut']:
                if ref is None:
                    cell = ('clo', len(self.stack), st.serial)
                    st.serial += 1
                    st.mem[cell] = clo
                    ref = mk('mref', cell, ())
                env = ref
            else:
                env = mk('ref', clo)
        else:
            env = clo
        if body['crate'] != self.P.d['crate']:
            info = {'path': body['path'], 'inst': inst, 'crate': body['crate'], 'kind': 'closure'}
            m = self.find_model(info)
            if m is not None:
                r = self.apply_model(m, fr, st, [env] + list(args), info, t)
                if r is not NotImplemented:
                    return r if isinstance(r, list) else [(r, st)]
        return self.call_inst(fr, st, inst, [env] + list(args), t)

    def call_fn(self, fr, st, ty, args, t):
        info = ty.get('fn')
        if info is None:
            raise Undecided('call of %s' % ty['s'])
        if t is None:
            t = {'s': None, 'dty': ty.get('out'), 't': 0, 'fty': None}
        kind = info['kind']
        path = info['path']
        if not self.mute:
            self.calls.add((fr.inst if fr else -1, t.get('s') if t else None, path))
        if self.call_hook is not None:
            r = self.call_hook(self, fr, st, info, args, t)
            if r is not None:
                return r
        cut = self.cuts.get(path)
        if cut is not None:
            r = cut(self, fr, st, args, info, t)
            if r is not None:
                return r
        if kind == 'ctor':
            a = self.T[info['adt']] if 'adt' in info else self.T[ty['out']]
            return [(mk('adt', a['path'], info.get('variant') or 0, tuple(args)), st)]
        m = self.find_model(info)
        if m is not None:
            r = self.apply_model(m, fr, st, args, info, t)
            if r is not NotImplemented:
                return r if isinstance(r, list) else [(r, st)]
        if kind == 'fn_ptr':
            # FnMut::call_mut and friends on a function item or pointer
            return self.call_value(fr, st, args[0], self.untuple(st, args[1]), t)
        if kind == 'closure_once':
            return self.call_value(fr, st, args[0], self.untuple(st, args[1]), t)
        inst = info.get('inst')
        if kind == 'clone_shim':
            return [(self.deref(st, args[0]), st)]
        if inst is not None and self.I[inst] is not None:
            body = self.I[inst]
            if body.get('closure') and kind == 'item' and len(args) == 2 and body['argc'] != 2 or (
                    body.get('closure') and self._is_tuple_call(info)):
                args = [args[0]] + self.untuple(st, args[1])
            return self.call_inst(fr, st, inst, args, t)
        if kind == 'unresolved':
            return self.unresolved(fr, st, info, args, t)
        return self.unknown_call(fr, st, info['path'], args, t)

    def _is_tuple_call(self, info):
        p = info.get('tpath') or info['path']
        return p.split('::')[-1] in ('call', 'call_mut', 'call_once') or '{closure' in info['path']

    def untuple(self, st, v):
        v = self.force(st, v)
        if v.tag == 'tup':
            return list(v.a[0])
        if v.tag == 'sym':
            v = self.make_sym(st, v.a[1], 'untuple', v.a[0])
            if v.tag == 'tup':
                return list(v.a[0])
        raise Undecided('untuple %s' % show(v))

    def deref(self, st, v):
        v = self.res(st, v)
        if v.tag == 'ref':
            return v.a[0]
        if v.tag == 'mref':
            return self.load(st, v.a[0], v.a[1])
        if v.tag == 'ch':
            if all(isinstance(x, Node) and x.tag == 'ref' for x in self.alts(st, v)):
                return self.res(st, self.map_ch(st, v, lambda x: x.a[0]))
            self.force(st, v)
        if v.tag in ('wire', 'str', 'slice', 'opq'):
            return v
        if v.tag == 'sym' and self.T[v.a[1]]['k'] in ('ref', 'ptr'):
            return self.make_sym(st, self.T[v.a[1]]['to'], 'deref', v.a[0])
        raise Undecided('deref %s' % show(v))

    def apply_model(self, m, fr, st, args, info, t):
        try:
            return m(self, fr, st, args, info, t)
        except (TypeError, AttributeError, ValueError, IndexError, KeyError) as e:
            # a value that this model does not know, made by a function that has none
            if not self.unknown:
                raise Undecided('%s: %s' % (info['path'], e))
            return self.unknown_call(fr, st, info['path'], args, t)

    def find_model(self, info):
        key = info['path']
        m = self._mcache.get(key, self)
        if m is not self:
            return m
        m = None
        for p in (info['path'], info.get('tpath')):
            if not p:
                continue
            n = npath(p)
            m = self.models.get(n)
            if m is not None:
                break
            for rx, f in self.model_res:
                if rx.search(n):
                    m = f
                    break
            if m is not None:
                break
        # crate functions are always interpreted
        if m is not None and info.get('crate') == self.P.d['crate'] and info.get('inst') is not None:
            b = self.I[info['inst']]
            if not (b and b.get('expanded') and info.get('tpath') and npath(info['tpath']) in (
                    'std::clone::Clone::clone',)):
                m = None
        self._mcache[key] = m
        return m

    def call_inst(self, fr, st, inst, args, t):
        body = self.I[inst]
        if self.stack.count(inst) >= 2:
            return self.recursive_call(fr, st, inst, args, t)
        if len(self.stack) > 150:
            raise Undecided('call depth')
        f = Frame()
        f.inst = inst
        f.body = body
        f.depth = len(self.stack) + 1
        f.cfg = self.P.cfg(inst)
        f.caller = fr
        f.site = t.get('s') if t else None
        d = f.depth
        base = st
        local = self.merge_local and body.get('crate') == self.P.d['crate'] and inst not in self.no_merge \
            and not body.get('closure')
        if self.merge_local == 'values' and local:
            r = self.T[body['locals'][0]]
            local = r['k'] == 'adt' and r['path'].endswith('value::Value')
        st = st.copy()
        n = body['argc']
        if len(args) != n:
            if body.get('spread') is not None or len(args) < n:
                # rust-call ABI: the last argument is a tuple
                args = args[:-1] + self.untuple(st, args[-1])
        if len(args) != n:
            raise Undecided('arity of %s: %d for %d' % (body['path'], len(args), n))
        for i, a in enumerate(args):
            st.mem[(d, i + 1)] = a
        self.stack.append(inst)
        saved = self.frames.get(d)
        self.frames[d] = f
        try:
            outs = self.run(f, 0, st)
        finally:
            self.stack.pop()
            self.frames[d] = saved
        rets = []
        for o in outs:
            if o.kind == 'ret':
                self.drop_frames(o.st, d, o.val)
                rets.append((o.val, o.st))
        if local and len(rets) > 1:
            rets = self.merge_rets(base, rets, inst)
        return rets

    def drop_frames(self, st, d, val):
        for c in [c for c in st.mem if isinstance(c[0], int) and c[0] >= d]:
            del st.mem[c]

    def recursive_call(self, fr, st, inst, args, t):
        return self.unknown_call(fr, st, 'recursive ' + self.I[inst]['path'], args, t)

    def havoc_args(self, st, args, *key):
        """Forget everything reachable through mutable references in the arguments."""
        seen = set()

        def walk(v):
            if not isinstance(v, Node) or v in seen:
                return
            seen.add(v)
            if v.tag == 'mref':
                try:
                    old = self.load(st, v.a[0], v.a[1])
                except Undecided:
                    return
                self.store(st, v.a[0], v.a[1], mk('opq', 'havoc', self.fresh(st), *key))
                walk(old)
            elif v.tag in ('adt', 'tup', 'arr', 'clo', 'ref', 'it', 'ch', 'ent'):
                for x in v.a:
                    if isinstance(x, tuple):
                        for y in x:
                            walk(y)
                    else:
                        walk(x)

        for a in args:
            walk(a)

    def unknown_call(self, fr, st, name, args, t):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        st.serial += 1
        k = self.fresh(st)
        self.havoc_args(st, args, name)
        st.ev('unknown', name, tuple(args), t.get('s') if t else None)
        v = self.make_sym(st, t['dty'], 'unk', name, k) if t and t.get('dty') is not None else mk('opq', name, k)
        return [(v, st)]

    def unresolved(self, fr, st, info, args, t):
        if self.unresolved_hook is not None:
            r = self.unresolved_hook(self, fr, st, info, args, t)
            if r is not None:
                return r
        st.serial += 1
        k = self.fresh(st)
        name = info.get('tpath') or info['path']
        st.ev('call', name, tuple(self.snapshot(st, a) for a in args), k, t.get('s'))
        # generic code may change what it is given a mutable reference to
        for a in args:
            a = self.res(st, a)
            if isinstance(a, Node) and a.tag == 'mref':
                pass
        v = self.make_sym(st, t['dty'], 'ret', name, k)
        return [(v, st)]

    def snapshot(self, st, v):
        v = self.res(st, v) if isinstance(v, Node) else v
        if isinstance(v, Node) and v.tag == 'mref':
            try:
                return mk('mrefto', self.load(st, v.a[0], v.a[1]))
            except Undecided:
                return v
        return v

    # ------------------------------------------------------------ merging

    def shape(self, st, v, depth=3):
        v = self.res(st, v)
        if isinstance(v, Node) and v.tag == 'adt' and depth and v.a[0] in (RESULT, OPTION, NOMERR,
                                                                        'std::ops::ControlFlow'):
            inner = tuple(self.shape(st, x, depth - 1) for x in v.a[2]) if v.a[0] != NOMERR else ()
            if v.a[0] == RESULT and v.a[1] == 0:
                inner = ()
            return (v.a[0], v.a[1], inner)
        if v is True or v is False:
            return v
        if isinstance(v, Node) and v.tag == 'adt':
            return v.a[0]
        return v.tag if isinstance(v, Node) else 'p'

    def merge_rets(self, base, rets, inst):
        groups = {}
        for v, s in rets:
            groups.setdefault(self.shape(s, v), []).append((v, s))
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
            else:
                out.append(self.merge(base, g, inst))
        return out

    def merge(self, base, g, inst):
        """Join several (value, state) into one without losing information: values that differ become
        choices whose alternatives remember the facts they hold under."""
        deltas = [s.facts.delta(base.facts) for _, s in g]
        cells = []
        keys = set()
        for _, s in g:
            keys |= s.mem.keys()
        s0 = g[0][1]
        for c in sorted(keys, key=str):
            vs = [s.mem.get(c) for _, s in g]
            if any(x is not vs[0] for x in vs[1:]):
                if any(x is None for x in vs):
                    continue
                cells.append(c)
        logs = [s.log for _, s in g]
        key = (tuple((v if isinstance(v, Node) else str(v)) for v, _ in g), tuple(deltas),
               tuple(tuple(s.mem[c] if isinstance(s.mem[c], Node) else str(s.mem[c]) for c in cells) for _, s in g))
        sel = atom(0, len(g) - 1, 'sel', len(g), key)
        r = St()
        r.serial = max(s.serial for _, s in g)
        r.facts = Facts.join([s.facts for _, s in g])
        r.mem = {c: v for c, v in s0.mem.items() if all(c in s.mem for _, s in g)}
        extra = [[] for _ in g]
        anchors = self.anchors(base)
        fsts = [s.facts for _, s in g]
        val = self.merge_vals([v for v, _ in g], sel, (), extra, r.facts, fsts, anchors)
        for c in cells:
            r.mem[c] = self.merge_vals([s.mem[c] for _, s in g], sel, (c,), extra, r.facts, fsts, anchors)
        if sel not in SEL:
            SEL[sel] = tuple(d + tuple(x) for d, x in zip(deltas, extra))
        if all(l is logs[0] for l in logs):
            r.log = logs[0]
            if any(SEL[sel]):
                r.log = (r.log, ('either', sel, None))
        else:
            # keep the events of each alternative under the selector
            pre = base.log
            segs = []
            for _, s in g:
                segs.append(tuple(s.events(pre)))
            if all(x == segs[0] for x in segs) and not any(SEL[sel]):
                r.log = logs[0]
            else:
                r.log = (pre, ('either', sel, tuple(segs)))
        return val, r

    def anchors(self, base):
        """Input positions known before the call, to relate merged positions to."""
        out = {}
        for v in base.mem.values():
            if isinstance(v, Node) and v.tag == 'wire':
                out.setdefault(v.a[0], set()).add(v.a[1])
        return out

    def merge_vals(self, vs, sel, path, extra, facts, fsts, anchors):
        v0 = vs[0]
        if all(v is v0 for v in vs[1:]):
            return v0
        if all(isinstance(v, Node) for v in vs):
            t = v0.tag
            if all(v.tag == t for v in vs):
                if t == 'lin':
                    return self.merge_lin(vs, sel, path, extra, facts, fsts)
                if t == 'adt' and all(v.a[:2] == v0.a[:2] for v in vs):
                    return mk('adt', v0.a[0], v0.a[1], tuple(
                        self.merge_vals([v.a[2][i] for v in vs], sel, path + (i,), extra, facts, fsts, anchors)
                        for i in range(len(v0.a[2]))))
                if t == 'tup' and all(len(v.a[0]) == len(v0.a[0]) for v in vs):
                    return mk('tup', tuple(
                        self.merge_vals([v.a[0][i] for v in vs], sel, path + (i,), extra, facts, fsts, anchors)
                        for i in range(len(v0.a[0]))))
                if t == 'ref':
                    x = self.merge_vals([v.a[0] for v in vs], sel, path + ('*',), extra, facts, fsts, anchors)
                    return mk('ref', x)
                if t == 'clo' and all(v.a[0] == v0.a[0] for v in vs):
                    return mk('clo', v0.a[0], tuple(
                        self.merge_vals([v.a[1][i] for v in vs], sel, path + (i,), extra, facts, fsts, anchors)
                        for i in range(len(v0.a[1]))))
                if t == 'wire' and all(v.a[0] is v0.a[0] for v in vs):
                    off = self.merge_vals([v.a[1] for v in vs], sel, path + ('o',), extra, facts, fsts, anchors)
                    end = self.merge_vals([v.a[2] for v in vs], sel, path + ('e',), extra, facts, fsts, anchors)
                    if off is not v0.a[1]:
                        for anc in anchors.get(v0.a[0], ()):
                            lo = min(f.range(sub(v.a[1], anc))[0] for v, f in zip(vs, fsts))
                            if lo >= 0:
                                facts.assume(p_ge(addc(sub(off, anc), -lo)))
                            elif all(f.decide(p_ge(sub(v.a[1], anc))) for v, f in zip(vs, fsts)):
                                facts.assume(p_ge(sub(off, anc)))
                        if all(f.decide(p_ge(sub(v.a[2], v.a[1]))) for v, f in zip(vs, fsts)):
                            facts.assume(p_ge(sub(end, off)))
                    return mk('wire', v0.a[0], off, end)
                if t == 'str' and all(v.a[0] == 'w' and v.a[1] is v0.a[1] for v in vs):
                    return mk('str', 'w', v0.a[1],
                              self.merge_vals([v.a[2] for v in vs], sel, path + ('o',), extra, facts, fsts, anchors),
                              self.merge_vals([v.a[3] for v in vs], sel, path + ('n',), extra, facts, fsts, anchors))
        return mk('ch', sel, tuple(vs))

    def merge_lin(self, vs, sel, path, extra, facts, fsts):
        rs = [f.range(v) for v, f in zip(vs, fsts)]
        lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
        rlo, rhi = min(rng(v)[0] for v in vs), max(rng(v)[1] for v in vs)
        m = atom(rlo, rhi, 'm', sel, tuple(str(p) for p in path))
        ml = of_atom(m)
        for v, e in zip(vs, extra):
            e.append(('eq', sub(ml, v)))
        if lo > rlo:
            facts.assume(p_ge(addc(ml, -lo)))
        if hi < rhi:
            facts.assume(p_ge(addc(neg(ml), hi)))
        return ml


def trunc(x, bits, signed):
    x &= (1 << bits) - 1
    if signed and x >> (bits - 1):
        x -= 1 << bits
    return x
