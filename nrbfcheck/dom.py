"""Symbolic domain of the abstract interpreter.

Everything is hash-consed: two values are equal iff they are the same object.

  Atom   an integer-valued unknown with an intrinsic range (a byte of the input, a length, a
         non-linear expression, ...)
  Lin    c + sum(coef * atom), the only representation of integers
  P      predicates: True, False, ('ge', Lin), ('eq', Lin), ('ne', Lin), ('b', Atom, bool)
  Facts  what is known on a path: a domain per atom, linear facts, boolean facts, equalities

Decisions are made by enumerating small domains, by intervals, and by adding up to two known linear
facts; there is no search and no external solver.
"""

_tab = {}
_next = [0]


class Node:
    """Hash-consed tree node: tag plus a tuple of children (nodes, ints, strings, tuples)."""
    __slots__ = ('tag', 'a', 'id', 'info')

    def __repr__(self):
        return show(self)


def mk(tag, *a):
    k = (tag, a)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.tag = tag
        n.a = a
        n.id = _next[0]
        n.info = None
        _next[0] += 1
        _tab[k] = n
    return n


# ------------------------------------------------------------------ atoms and linear forms

INF = 1 << 200


def atom(lo, hi, *key):
    """An integer unknown. The range is part of the identity."""
    return mk('atom', lo, hi, key)


def alo(a):
    return a.a[0]


def ahi(a):
    return a.a[1]


def akey(a):
    return a.a[2]


def lin(c, ts=()):
    return mk('lin', c, ts)


def const(c):
    return mk('lin', c, ())


ZERO = const(0)
ONE = const(1)


def of_atom(a):
    if a.a[0] == a.a[1]:
        return const(a.a[0])
    return mk('lin', 0, ((a, 1),))


def is_const(l):
    return not l.a[1]


def cval(l):
    return l.a[0] if not l.a[1] else None


def add(x, y, cy=1):
    if not y.a[1]:
        if y.a[0] == 0 or cy == 0:
            return x
        return mk('lin', x.a[0] + cy * y.a[0], x.a[1])
    d = dict(x.a[1])
    for a, c in y.a[1]:
        n = d.get(a, 0) + cy * c
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return mk('lin', x.a[0] + cy * y.a[0], tuple(sorted(d.items(), key=lambda t: t[0].id)))


def sub(x, y):
    return add(x, y, -1)


def addc(x, c):
    return mk('lin', x.a[0] + c, x.a[1]) if c else x


def scale(x, c):
    if c == 1:
        return x
    if c == 0:
        return ZERO
    return mk('lin', x.a[0] * c, tuple((a, k * c) for a, k in x.a[1]))


def neg(x):
    return scale(x, -1)


def rng(l):
    """Context-free range of a linear form."""
    lo = hi = l.a[0]
    for a, c in l.a[1]:
        if c > 0:
            lo += c * a.a[0]
            hi += c * a.a[1]
        else:
            lo += c * a.a[1]
            hi += c * a.a[0]
    return lo, hi


# ------------------------------------------------------------------ predicates

def p_ge(l):
    if not l.a[1]:
        return l.a[0] >= 0
    lo, hi = rng(l)
    if lo >= 0:
        return True
    if hi < 0:
        return False
    return mk('ge', l)


def _normsign(l):
    return l if l.a[1][0][1] > 0 else neg(l)


def p_eq(l):
    if not l.a[1]:
        return l.a[0] == 0
    lo, hi = rng(l)
    if lo > 0 or hi < 0:
        return False
    return mk('eq', _normsign(l))


def p_ne(l):
    return p_not(p_eq(l))


def p_b(a, v=True):
    return mk('b', a, v)


def p_not(p):
    if p is True:
        return False
    if p is False:
        return True
    if p.tag == 'ge':
        return p_ge(addc(neg(p.a[0]), -1))
    if p.tag == 'eq':
        return mk('ne', p.a[0])
    if p.tag == 'ne':
        return mk('eq', p.a[0])
    if p.tag == 'b':
        return mk('b', p.a[0], not p.a[1])
    raise ValueError(p)


def batom(*key):
    """A boolean unknown (an uninterpreted predicate)."""
    return atom(0, 1, 'bool', *key)


# ------------------------------------------------------------------ bit-level normal form

def leaves(n):
    """Base atoms a linear form or atom depends on."""
    if n.info is not None and 'lv' in n.info:
        return n.info['lv']
    if n.tag == 'lin':
        r = frozenset()
        for a, _ in n.a[1]:
            r |= leaves(a)
    else:
        k = n.a[2]
        if k[0] == 'bits':
            r = leaves(k[1])
        elif k[0] == 'op':
            r = frozenset()
            for x in k[2:]:
                if isinstance(x, Node):
                    r |= leaves(x)
        else:
            r = frozenset((n,))
    if n.info is None:
        n.info = {}
    n.info['lv'] = r
    return r


def units(n):
    """As leaves, but a single bit of a wide atom stands for itself."""
    if n.info is not None and 'un' in n.info:
        return n.info['un']
    if n.tag == 'lin':
        r = frozenset()
        for a, _ in n.a[1]:
            r |= units(a)
    else:
        k = n.a[2]
        if k[0] == 'bits':
            aw = atom_width(k[1])
            r = frozenset((n,)) if k[3] == 1 and aw is not None and aw > 8 else units(k[1])
        elif k[0] == 'op':
            r = frozenset()
            for x in k[2:]:
                if isinstance(x, Node):
                    r |= units(x)
        else:
            r = frozenset((n,))
    if n.info is None:
        n.info = {}
    n.info['un'] = r
    return r


def ev(n, env):
    """Evaluate a linear form or atom under an assignment of its leaves."""
    if n.tag == 'lin':
        return n.a[0] + sum(c * ev(a, env) for a, c in n.a[1])
    if n in env:
        return env[n]
    k = n.a[2]
    if k[0] == 'bits':
        return (ev(k[1], env) >> k[2]) & ((1 << k[3]) - 1)
    if k[0] == 'op':
        return OPS[k[1]](*[ev(x, env) if isinstance(x, Node) else x for x in k[2:]])
    raise KeyError(n)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def _wrap(x, bits, signed):
    x &= (1 << bits) - 1
    if signed and x >> (bits - 1):
        x -= 1 << bits
    return x


OPS = {
    'wrap': lambda x, bits, signed: _wrap(x, bits, signed),
    'div': lambda a, b: _tdiv(a, b) if b else 0,
    'rem': lambda a, b: a - b * _tdiv(a, b) if b else 0,
    'mul': lambda a, b: a * b,
    'and': lambda a, b: a & b,
    'or': lambda a, b: a | b,
    'xor': lambda a, b: a ^ b,
    'shl': lambda a, b: a << min(b, 200),
    'shr': lambda a, b: a >> b,
    'popcount': lambda a, bits: bin(a & ((1 << bits) - 1)).count('1'),
    'ctz': lambda a, bits: bits if a == 0 else (a & -a).bit_length() - 1,
    'clz': lambda a, bits: bits - (a & ((1 << bits) - 1)).bit_length(),
    'min': min,
    'max': max,
}


def op_atom(name, lo, hi, *args):
    return of_atom(atom(lo, hi, 'op', name, *args))


def has_op(n):
    if n.tag == 'lin':
        return any(has_op(a) for a, _ in n.a[1])
    return n.a[2][0] == 'op'


def atom_width(a):
    """Number of two's complement bits that hold the atom, or None."""
    lo, hi = a.a[0], a.a[1]
    if lo >= 0:
        return hi.bit_length()
    for w in (8, 16, 32, 64, 128):
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return w
    return None


def abit(a, i):
    """Bit i of an atom as a source (atom, index), looking through 'bits' atoms."""
    k = a.a[2]
    if k[0] == 'bits':
        return (k[1], k[2] + i)
    return (a, i)


def bitvec(l, width):
    """Bits of a linear form, least significant first: 0, 1 or (atom, index); None if unknown."""
    if not l.a[1]:
        c = l.a[0] & ((1 << width) - 1)
        return [(c >> i) & 1 for i in range(width)]
    if len(l.a[1]) == 1 and l.a[0] % (1 << width) == 0 and l.a[1][0][1] == 1:
        a = l.a[1][0][0]
        k = a.a[2]
        if k[0] == 'op' and k[1] == 'sbits':
            src, s, w = k[2], k[3], k[4]
            return [(src, s + min(i, w - 1)) for i in range(width)]
        if k[0] == 'op' and k[1] == 'bv':
            bits = list(k[2])
            if len(bits) >= width:
                return bits[:width]
            return bits + [bits[-1] if k[3] else 0] * (width - len(bits))
        w = atom_width(a)
        if w is None:
            return None
        if a.a[0] >= 0:
            return [abit(a, i) if i < w else 0 for i in range(width)]
        if w >= width:
            return [(a, i) for i in range(width)]
        return [(a, min(i, w - 1)) for i in range(width)]
    # sum of non-overlapping shifted parts
    out = [0] * width
    used = 0
    parts = list(l.a[1])
    if l.a[0] < 0:
        return None
    if l.a[0]:
        used = l.a[0]
        for i in range(width):
            out[i] = (l.a[0] >> i) & 1
    for a, c in parts:
        if c <= 0 or c & (c - 1) or a.a[0] < 0:
            return None
        s = c.bit_length() - 1
        w = a.a[1].bit_length()
        m = ((1 << w) - 1) << s
        if used & m:
            return None
        used |= m
        for i in range(w):
            if s + i < width:
                out[s + i] = abit(a, i)
    return out


SINGLE_MAX = 16


def from_bits(bits, signed):
    """Normal form of a bit vector as a linear form."""
    width = len(bits)
    n = width
    # sign extension (or a copy of the sign bit) at the top
    if signed and bits[-1] not in (0,):
        b = bits[-1]
        if b == 1:
            return op_const_neg(bits)
        # whole signed atom
        src = b[0]
        w = atom_width(src)
        if src.a[0] < 0 and w is not None and w <= width and all(
                bits[i] == (src, min(i, w - 1)) for i in range(width)):
            return of_atom(src)
        # sign extended run
        top = width - 1
        while top > 0 and bits[top - 1] == b:
            top -= 1
        s = b[1] - top
        if s >= 0 and all(bits[i] == (src, s + i) for i in range(top + 1)):
            w = top + 1
            return of_atom(atom(-(1 << (w - 1)), (1 << (w - 1)) - 1, 'op', 'sbits', src, s, w))
        return of_atom(atom(-(1 << (width - 1)), (1 << (width - 1)) - 1, 'op', 'bv', tuple(bits), True))
    c = 0
    ts = ZERO
    i = 0
    while i < n:
        b = bits[i]
        if b == 0 or b == 1:
            c |= b << i
            i += 1
            continue
        j = i
        while j + 1 < n and bits[j + 1] not in (0, 1) and bits[j + 1] == (b[0], b[1] + (j + 1 - i)):
            j += 1
        w = j - i + 1
        ts = add(ts, bits_lin(b[0], b[1], w), 1 << i)
        i = j + 1
    return addc(ts, c)


def op_const_neg(bits):
    width = len(bits)
    if all(b in (0, 1) for b in bits):
        v = sum(b << i for i, b in enumerate(bits))
        return const(v - (1 << width))
    return of_atom(atom(-(1 << (width - 1)), -1, 'op', 'bv', tuple(bits), True))


def as_signed(u, bits):
    """The two's complement value of an unsigned atom of that width."""
    return of_atom(atom(-(1 << (bits - 1)), (1 << (bits - 1)) - 1, 'op', 'sbits', u, 0, bits))


def signed_view(a):
    """(atom, width) if an atom is the signed value of a whole unsigned atom."""
    k = a.a[2]
    if k[0] == 'op' and k[1] == 'sbits' and k[3] == 0 and k[2].a[0] == 0 and k[2].a[1] == (1 << k[4]) - 1:
        return k[2], k[4]
    return None


def bits_lin(src, s, w):
    aw = atom_width(src)
    if s == 0 and src.a[0] >= 0 and aw is not None and w >= aw:
        return of_atom(src)
    if aw is not None and aw > 8 and w <= SINGLE_MAX:
        r = ZERO
        for i in range(w):
            r = add(r, of_atom(atom(0, 1, 'bits', src, s + i, 1)), 1 << i)
        return r
    return of_atom(atom(0, (1 << w) - 1, 'bits', src, s, w))


OPS['sbits'] = lambda x, s, w: _wrap(x >> s, w, True)


def wrap(l, bits, signed):
    """The value of l modulo 2^bits in the type's range, without case distinction if possible."""
    lo, hi = rng(l)
    tlo, thi = trange(bits, signed)
    if lo >= tlo and hi <= thi:
        return l
    bv = bitvec(l, bits)
    if bv is not None:
        return from_bits(bv, signed)
    return op_atom('wrap', tlo, thi, l, bits, signed)


def trange(bits, signed):
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def bitop(op, x, y, bits, signed):
    bx, by = bitvec(x, bits), bitvec(y, bits)
    if bx is not None and by is not None:
        out = []
        for p, q in zip(bx, by):
            if op == 'and':
                r = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None
            elif op == 'or':
                r = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else None
            else:
                r = q if p == 0 else p if q == 0 else (1 - p if q == 1 and p in (0, 1) else None)
                if p == q:
                    r = 0
            if r is None:
                break
            out.append(r)
        else:
            return from_bits(out, signed)
    tlo, thi = trange(bits, signed)
    if op == 'and':
        lx, hx = rng(x)
        ly, hy = rng(y)
        if lx >= 0:
            tlo, thi = 0, min(thi, hx)
        if ly >= 0:
            tlo, thi = 0, min(thi, hy)
    elif not signed or (rng(x)[0] >= 0 and rng(y)[0] >= 0):
        tlo = 0
        thi = (1 << max(rng(x)[1].bit_length(), rng(y)[1].bit_length())) - 1
    if x.id > y.id:
        x, y = y, x
    return op_atom(op, tlo, thi, x, y)


def shl(x, n, bits, signed):
    bv = bitvec(x, bits)
    if bv is not None:
        return from_bits(([0] * n + bv)[:bits], signed)
    return wrap(scale(x, 1 << n), bits, signed)


def shr(x, n, bits, signed):
    bv = bitvec(x, bits)
    if bv is not None:
        fill = bv[-1] if signed else 0
        return from_bits(bv[n:] + [fill] * n, signed)
    lo, hi = rng(x)
    return op_atom('shr', lo >> n, hi >> n, x, const(n))


def popcount(x, bits):
    bv = bitvec(x, bits)
    if bv is not None:
        r = ZERO
        for b in bv:
            if b == 1:
                r = addc(r, 1)
            elif b != 0:
                r = add(r, of_atom(atom(0, 1, 'bits', b[0], b[1], 1)))
        return r
    return op_atom('popcount', 0, bits, x, bits)


# ------------------------------------------------------------------ facts

SMALL = 256


def full_dom(a):
    lo, hi = a.a[0], a.a[1]
    if hi - lo < SMALL:
        return (1 << (hi - lo + 1)) - 1
    return ((lo, hi),)


def dom_vals(a, d):
    lo = a.a[0]
    i = 0
    while d:
        if d & 1:
            yield lo + i
        d >>= 1
        i += 1


def mask_bounds(a, d):
    lo = a.a[0]
    return lo + ((d & -d).bit_length() - 1), lo + d.bit_length() - 1


def iv_and(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        lo = max(x[i][0], y[j][0])
        hi = min(x[i][1], y[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_or(x, y):
    out = []
    for lo, hi in sorted(x + y):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


# selector atom -> list of fact deltas, one per alternative
SEL = {}


class Facts:
    __slots__ = ('dom', 'lins', 'nes', 'bools', 'sub')

    def __init__(self):
        self.dom = {}
        self.lins = ()
        self.nes = frozenset()
        self.bools = {}
        self.sub = {}

    def copy(self):
        f = Facts()
        f.dom = dict(self.dom)
        f.lins = self.lins
        f.nes = self.nes
        f.bools = dict(self.bools)
        f.sub = dict(self.sub)
        return f

    # -------------------------------------------------- evaluation

    def norm(self, l):
        """Apply known equalities."""
        if not self.sub:
            return l
        for _ in range(20):
            for a, _c in l.a[1]:
                if a in self.sub:
                    break
            else:
                return l
            r = const(l.a[0])
            for a, c in l.a[1]:
                s = self.sub.get(a)
                r = add(r, s if s is not None else of_atom(a), c)
            l = r
        return l

    def get(self, a):
        d = self.dom.get(a)
        return full_dom(a) if d is None else d

    def bounds(self, a):
        d = self.dom.get(a)
        if d is None:
            lv = units(a)
            if len(lv) == 1:
                (b,) = lv
                if b is not a:
                    bd = self.dom.get(b)
                    if bd is not None and isinstance(bd, int) and bd.bit_count() <= SMALL:
                        vs = [ev(a, {b: v}) for v in dom_vals(b, bd)]
                        if vs:
                            return min(vs), max(vs)
            return a.a[0], a.a[1]
        if isinstance(d, int):
            return mask_bounds(a, d)
        return d[0][0], d[-1][1]

    def range(self, l):
        l = self.norm(l)
        lo = hi = l.a[0]
        for a, c in l.a[1]:
            x, y = self.bounds(a)
            if c > 0:
                lo += c * x
                hi += c * y
            else:
                lo += c * y
                hi += c * x
        return lo, hi

    def value(self, l):
        """The constant a form is known to equal, or None."""
        l = self.norm(l)
        if not l.a[1]:
            return l.a[0]
        lo, hi = self.range(l)
        return lo if lo == hi else None

    def _small_leaf(self, l):
        lv = units(l)
        if len(lv) == 1:
            (b,) = lv
            if b.a[1] - b.a[0] < SMALL:
                return b
        return None

    def _enum(self, l, test):
        """Domain of the single small leaf split by a test: (mask true, mask false, leaf)."""
        b = self._small_leaf(l)
        if b is None:
            return None
        d = self.get(b)
        t = f = 0
        for v in dom_vals(b, d):
            if test(ev(l, {b: v})):
                t |= 1 << (v - b.a[0])
            else:
                f |= 1 << (v - b.a[0])
        return t, f, b

    def _enum2(self, l, test):
        """As _enum for two small leaves, decision only."""
        lv = sorted(units(l), key=lambda n: n.id)
        if not 1 < len(lv) <= 6:
            return None
        doms = []
        n = 1
        for b in lv:
            if b.a[1] - b.a[0] >= SMALL:
                return None
            d = list(dom_vals(b, self.get(b)))
            doms.append(d)
            n *= len(d)
            if n > 4096:
                return None
        seen = set()
        import itertools
        for vs in itertools.product(*doms):
            seen.add(bool(test(ev(l, dict(zip(lv, vs))))))
            if len(seen) == 2:
                return None
        return seen.pop() if seen else True

    def decide(self, p):
        if p is True or p is False:
            return p
        if p.tag == 'b':
            v = self.bools.get(p.a[0])
            return None if v is None else v == p.a[1]
        if p.tag == 'ge':
            return self._ge(p.a[0])
        r = self._eq(p.a[0])
        if r is None:
            return None
        return r if p.tag == 'eq' else not r

    def _ge(self, l, depth=2):
        l = self.norm(l)
        if not l.a[1]:
            return l.a[0] >= 0
        e = self._enum(l, lambda v: v >= 0)
        if e is not None:
            t, f, _ = e
            return True if not f else False if not t else None
        lo, hi = self.range(l)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        e = self._enum2(l, lambda v: v >= 0)
        if e is not None:
            return e
        if self._implied(l, depth):
            return True
        if self._implied(addc(neg(l), -1), depth):
            return False
        if self.nes and depth > 1:
            m = addc(l, 1)
            if self._apart(m) and self._ge(m, 1):
                return True
            if self._apart(l) and self._ge(neg(l), 1):
                return False
        return None

    def _apart(self, l):
        if _normsign(l) in self.nes:
            return True
        return bool(self.sub) and any(self.norm(n) in (l, neg(l)) for n in self.nes)

    def _implied(self, l, depth):
        """l >= 0 follows from adding up to `depth` known facts to a non-negative rest."""
        if not self.lins:
            return False
        atoms = {a for a, _ in l.a[1]}
        for f in self.lins:
            if not any(a in atoms for a, _ in f.a[1]):
                continue
            g = self.norm(f)
            r = sub(l, g)
            if self.range(r)[0] >= 0:
                return True
            if depth > 1 and len(r.a[1]) <= len(l.a[1]) + 1:
                if self._implied(r, depth - 1):
                    return True
        return False

    def _eq(self, l):
        l = self.norm(l)
        if not l.a[1]:
            return l.a[0] == 0
        e = self._enum(l, lambda v: v == 0)
        if e is not None:
            t, f, _ = e
            return True if not f else False if not t else None
        lo, hi = self.range(l)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        if len(l.a[1]) == 1:
            a, c = l.a[1][0]
            v, m = divmod(-l.a[0], c)
            if m:
                return False
            d = self.get(a)
            if not isinstance(d, int):
                if not any(x <= v <= y for x, y in d):
                    return False
        if _normsign(l) in self.nes:
            return False
        e = self._enum2(l, lambda v: v == 0)
        if e is not None:
            return e
        if self.lins:
            g1 = self._ge(l, 1)
            if g1 is False:
                return False
            g2 = self._ge(neg(l), 1)
            if g2 is False:
                return False
            if g1 and g2:
                return True
        return None

    # -------------------------------------------------- refinement

    def assume(self, p):
        """Add a predicate; False if the facts become contradictory."""
        if p is True or p is False:
            return p
        d = self.decide(p)
        if d is not None:
            return d
        if p.tag == 'b':
            self.bools[p.a[0]] = p.a[1]
            return True
        if p.tag == 'ge':
            return self._add_ge(p.a[0])
        if p.tag == 'eq':
            return self._add_eq(p.a[0])
        return self._add_ne(p.a[0])

    def _set(self, a, d):
        if isinstance(d, int):
            if not d:
                return False
        elif not d:
            return False
        if self.dom.get(a) == d:
            return True
        self.dom[a] = d
        if a in SEL and isinstance(d, int) and d & (d - 1) == 0:
            if not self.apply(SEL[a][d.bit_length() - 1]):
                return False
        return self._link(a)

    def _link(self, a):
        """Once the sign is known, the signed and the unsigned reading of the same bits are one."""
        v = signed_view(a)
        if v is not None:
            if a in self.sub:
                return True
            lo, hi = self.bounds(a)
            u, w = v
            if lo >= 0 or hi < 0:
                o = 0 if lo >= 0 else 1 << w
                self.sub[a] = addc(of_atom(u), -o)
                return self._clip(u, lo + o, hi + o)
            return True
        k = a.a[2]
        if k[0] == 'rd' and k[4] == 'u' and k[3] > 1:
            w = 8 * k[3]
            lo, hi = self.bounds(a)
            if hi < 1 << (w - 1) or lo >= 1 << (w - 1):
                (s, _), = as_signed(a, w).a[1]
                if s not in self.sub:
                    self.sub[s] = addc(of_atom(a), 0 if lo < 1 << (w - 1) else -(1 << w))
        return True

    def _restrict(self, l, test):
        e = self._enum(l, test)
        if e is None:
            return None
        t, _f, b = e
        return self._set(b, t)

    def _add_ge(self, l):
        l = self.norm(l)
        r = self._restrict(l, lambda v: v >= 0)
        if r is not None:
            return r
        if len(l.a[1]) == 1:
            a, c = l.a[1][0]
            k = l.a[0]
            if c > 0:
                lo, hi = -((k) // c), INF  # a >= ceil(-k/c)
                lo = -(k // c)
            else:
                lo, hi = -INF, k // (-c)
            d = self.get(a)
            if isinstance(d, int):
                m = 0
                for v in dom_vals(a, d):
                    if lo <= v <= hi:
                        m |= 1 << (v - a.a[0])
                return self._set(a, m)
            return self._set(a, iv_and(d, ((lo, hi),)))
        if self._implied(neg(l), 1):
            return self._add_eq(l)
        if l not in self.lins:
            self.lins = self.lins + (l,)
        # propagate bounds
        return self._propagate(l)

    def _propagate(self, l):
        lo, hi = self.range(l)
        if hi < 0:
            return False
        for a, c in l.a[1]:
            x, y = self.bounds(a)
            rest = hi - (c * y if c > 0 else c * x)
            # c*a + rest >= 0
            if c > 0:
                nlo = -(rest // c)
                if nlo > x:
                    if not self._clip(a, nlo, INF):
                        return False
            else:
                nhi = rest // (-c)
                if nhi < y:
                    if not self._clip(a, -INF, nhi):
                        return False
        return True

    def _clip(self, a, lo, hi):
        d = self.get(a)
        if isinstance(d, int):
            m = 0
            for v in dom_vals(a, d):
                if lo <= v <= hi:
                    m |= 1 << (v - a.a[0])
            return self._set(a, m)
        return self._set(a, iv_and(d, ((lo, hi),)))

    def _add_eq(self, l):
        l = self.norm(l)
        r = self._restrict(l, lambda v: v == 0)
        if r is not None:
            return r
        # bits that add up to zero are all zero
        if l.a[0] == 0 and len(l.a[1]) > 1 and (all(c > 0 and self.bounds(a)[0] >= 0 for a, c in l.a[1])
                                                or all(c < 0 and self.bounds(a)[0] >= 0 for a, c in l.a[1])):
            return all(self._add_eq(of_atom(a)) for a, _ in l.a[1])
        if len(l.a[1]) == 1:
            a, c = l.a[1][0]
            v, m = divmod(-l.a[0], c)
            if m:
                return False
            d = self.get(a)
            if isinstance(d, int):
                i = v - a.a[0]
                if i < 0 or not (d >> i) & 1:
                    return False
                return self._set(a, 1 << i)
            if not any(x <= v <= y for x, y in d):
                return False
            return self._set(a, ((v, v),))
        # substitute the youngest atom with a unit coefficient
        for a, c in sorted(l.a[1], key=lambda t: (bool(_rank(t[0])), t[0].id), reverse=True):
            if c in (1, -1) and not isinstance(self.get(a), int):
                rest = add(l, of_atom(a), -c)
                s = scale(rest, -c)
                if any(a in leaves(b) for b, _ in s.a[1]):
                    continue
                x, y = self.bounds(a)
                lo, hi = self.range(s)
                if hi < x or lo > y:
                    return False
                self.sub[a] = s
                if not self._add_ge_soft(addc(s, -x)) or not self._add_ge_soft(addc(neg(s), y)):
                    return False
                for k in list(self.sub):
                    if k is not a and any(b is a for b, _ in self.sub[k].a[1]):
                        self.sub[k] = self.norm(self.sub[k])
                old = self.lins
                self.lins = ()
                for f in old:
                    g = self.norm(f)
                    if g is not f:
                        r = p_ge(g)
                        if r is False:
                            return False
                        if r is not True and not self.assume(r):
                            return False
                    else:
                        self.lins = self.lins + (f,)
                return True
        self.lins = self.lins + (l, neg(l))
        return self._propagate(l) and self._propagate(neg(l))

    def _add_ge_soft(self, l):
        p = p_ge(l)
        if p is True or p is False:
            return p
        return self.assume(p)

    def _add_ne(self, l):
        l = self.norm(l)
        r = self._restrict(l, lambda v: v != 0)
        if r is not None:
            return r
        if len(l.a[1]) == 1:
            a, c = l.a[1][0]
            v, m = divmod(-l.a[0], c)
            if m:
                return True
            d = self.get(a)
            if isinstance(d, int):
                i = v - a.a[0]
                if i >= 0:
                    d &= ~(1 << i)
                return self._set(a, d)
            out = []
            for x, y in d:
                if x <= v <= y:
                    if x <= v - 1:
                        out.append((x, v - 1))
                    if v + 1 <= y:
                        out.append((v + 1, y))
                else:
                    out.append((x, y))
            return self._set(a, tuple(out))
        # a sum of non-negative terms that is not zero is positive
        if l.a[0] == 0 and all(c > 0 and self.bounds(a)[0] >= 0 for a, c in l.a[1]):
            return self._add_ge(addc(l, -1))
        if l.a[0] == 0 and all(c < 0 and self.bounds(a)[0] >= 0 for a, c in l.a[1]):
            return self._add_ge(addc(neg(l), -1))
        lo, hi = self.range(l)
        if lo == 0:
            return self._add_ge(addc(l, -1))
        if hi == 0:
            return self._add_ge(addc(neg(l), -1))
        self.nes = self.nes | {_normsign(l)}
        return True

    # -------------------------------------------------- deltas and joins

    def delta(self, base):
        """What this adds to `base`."""
        d = []
        for a, v in self.dom.items():
            if base.dom.get(a) != v:
                d.append(('dom', a, v))
        for a, v in self.sub.items():
            if base.sub.get(a) is not v:
                d.append(('eq', sub(of_atom(a), v)))
        bl = set(base.lins)
        for l in self.lins:
            if l not in bl:
                d.append(('ge', l))
        for l in self.nes:
            if l not in base.nes:
                d.append(('ne', l))
        for a, v in self.bools.items():
            if base.bools.get(a) != v:
                d.append(('b', a, v))
        d.sort(key=lambda t: (t[0], t[1].id))
        return tuple(d)

    def apply(self, delta):
        for t in delta:
            k = t[0]
            if k == 'dom':
                a = t[1]
                if a in self.sub and not isinstance(t[2], int):
                    l = self.sub[a]
                    if not self.assume(p_ge(addc(l, -t[2][0][0]))) or not self.assume(p_ge(addc(neg(l), t[2][-1][1]))):
                        return False
                v = self.get(a)
                n = (v & t[2]) if isinstance(v, int) else iv_and(v, t[2])
                if n != v and not self._set(a, n):
                    return False
                if not n:
                    return False
            elif k == 'b':
                o = self.bools.get(t[1])
                if o is not None and o != t[2]:
                    return False
                self.bools[t[1]] = t[2]
            elif k == 'eq':
                if not self.assume(p_eq(t[1])):
                    return False
            elif k == 'ge':
                if not self.assume(p_ge(t[1])):
                    return False
            else:
                if not self.assume(p_ne(t[1])):
                    return False
        return True

    def consistent(self):
        for l in self.lins:
            if self.range(l)[1] < 0:
                return False
        for l in self.nes:
            if self.norm(l) is ZERO:
                return False
        return True

    def clash(self):
        """Contradictions between the bits of a number and the number, and between terms over few bits."""
        return self._prefix() or self._few()

    def _bit(self, src, i):
        d = self.dom.get(atom(0, 1, 'bits', src, i, 1))
        if d is None:
            return self.value(of_atom(atom(0, 1, 'bits', src, i, 1)))
        return None if d & (d - 1) else d.bit_length() - 1

    def _prefix(self):
        """The known leading bits of a wide number leave no value in its range."""
        for src in {a.a[2][1] for a in self.dom if a.a[2][0] == 'bits' and a.a[2][3] == 1}:
            w = atom_width(src)
            if w is None or w <= 8:
                continue
            lo, hi = self.bounds(src)
            if lo < 0:
                s = self._bit(src, w - 1)
                if s is None:
                    continue
                x = -(1 << (w - 1)) if s else 0
            else:
                x = 0
                s = self._bit(src, w - 1)
                if s is None:
                    continue
                x = s << (w - 1)
            i = w - 2
            while i >= 0:
                b = self._bit(src, i)
                if b is None:
                    break
                x += b << i
                i -= 1
            if x > hi or x + (1 << (i + 1)) - 1 < lo:
                return True
        return False

    def plain(self, l):
        """Signed readings of some bits as unsigned ones, where the sign is known."""
        r = const(l.a[0])
        for a, c in l.a[1]:
            k = a.a[2]
            x = of_atom(a)
            if k[0] == 'op' and k[1] == 'sbits' and k[2].tag == 'atom':
                s = self._bit(k[2], k[3] + k[4] - 1)
                if s is not None:
                    x = addc(bits_lin(k[2], k[3], k[4]), -(s << k[4]))
            r = add(r, x, c)
        return r

    def _few(self):
        for l in self.nes:
            if self.plain(l) is ZERO:
                return True
        cs = []
        for kind, l in ([('ge', self.norm(x)) for x in self.lins] + [('ne', self.norm(x)) for x in self.nes]
                        + [('dom', a) for a in self.dom if a.a[2][0] == 'op']):
            u = units(l)
            if u and len(u) <= 8 and all(b.a[1] - b.a[0] < 2 for b in u):
                cs.append((kind, l, u))
        if not any(has_op(l) for _k, l, _u in cs):
            return False
        us = set()
        for _k, _l, u in cs:
            us |= u
        us = sorted(us, key=lambda n: n.id)
        if len(us) > 24:
            return False
        # constraints by the last of their bits
        at = {b: i for i, b in enumerate(us)}
        by = [[] for _ in us]
        for c in cs:
            by[max(at[b] for b in c[2])].append(c)
        left = [20000]

        def search(i, env):
            if i == len(us):
                return True
            for v in dom_vals(us[i], self.get(us[i])):
                left[0] -= 1
                if left[0] < 0:
                    return True
                env[us[i]] = v
                if all(self._holds(k, l, env) for k, l, _u in by[i]) and search(i + 1, env):
                    return True
            env.pop(us[i], None)
            return False

        return not search(0, {})

    def _holds(self, k, l, env):
        v = ev(l, env)
        if k == 'ge':
            return v >= 0
        if k == 'ne':
            return v != 0
        d = self.dom[l]
        return bool((d >> (v - l.a[0])) & 1) if isinstance(d, int) else any(x <= v <= y for x, y in d)

    @staticmethod
    def join(fs):
        r = Facts()
        f0 = fs[0]
        for a, d in f0.dom.items():
            for f in fs[1:]:
                e = f.dom.get(a)
                if e is None:
                    e = full_dom(a)
                    if f.sub.get(a) is not None:
                        lo, hi = f.range(of_atom(a))
                        e = e if isinstance(e, int) else iv_and(e, ((lo, hi),))
                d = (d | e) if isinstance(d, int) else iv_or(d, e)
            if d != full_dom(a):
                r.dom[a] = d
        for l in f0.lins:
            if all(l in f.lins or f.decide(p_ge(l)) is True for f in fs[1:]):
                r.lins = r.lins + (l,)
        for f in fs[1:]:
            for l in f.lins:
                if l not in r.lins and all(l in g.lins or g.decide(p_ge(l)) is True for g in fs):
                    r.lins = r.lins + (l,)
        n = f0.nes
        for f in fs[1:]:
            n = frozenset(l for l in n if f.decide(p_ne(l)) is True)
        r.nes = n
        for a, v in f0.bools.items():
            if all(f.bools.get(a) == v for f in fs[1:]):
                r.bools[a] = v
        for a, v in f0.sub.items():
            if all(f.sub.get(a) is v for f in fs[1:]):
                r.sub[a] = v
        return r


def _rank(a):
    """Atoms that are preferably eliminated when an equality is learned."""
    return a.a[2][0] in ('m', 'len', 'phi')


# ------------------------------------------------------------------ substitution and printing

def subst(n, m, cache=None):
    """Replace atoms (map Atom -> Lin) in a node tree."""
    if cache is None:
        cache = {}
    return _subst(n, m, cache)


def _subst(n, m, cache):
    if isinstance(n, tuple):
        return tuple(_subst(x, m, cache) for x in n)
    if not isinstance(n, Node):
        return n
    r = cache.get(n)
    if r is not None:
        return r
    if n.tag == 'lin':
        r = const(n.a[0])
        for a, c in n.a[1]:
            s = _subst_atom(a, m, cache)
            r = add(r, s, c)
    elif n.tag == 'atom':
        s = _subst_atom(n, m, cache)
        # an atom in a structural position keeps being an atom when possible
        if len(s.a[1]) == 1 and s.a[0] == 0 and s.a[1][0][1] == 1:
            r = s.a[1][0][0]
        else:
            r = n if s is of_atom(n) else s
    else:
        a = tuple(_subst(x, m, cache) for x in n.a)
        if a == n.a:
            r = n
        elif n.tag == 'ge':
            r = p_ge(a[0])
        elif n.tag == 'eq':
            r = p_eq(a[0])
        elif n.tag == 'ne':
            r = p_ne(a[0])
        else:
            r = mk(n.tag, *a)
    cache[n] = r
    return r


def _subst_atom(a, m, cache):
    s = m.get(a)
    if s is not None:
        return s
    s = cache.get((a,))
    if s is None:
        s = cache[(a,)] = _subst_atom2(a, m, cache)
    return s


def _subst_atom2(a, m, cache):
    k = a.a[2]
    nk = tuple(_subst(x, m, cache) for x in k)
    if nk == k:
        return of_atom(a)
    if k[0] == 'bits' and nk[1].tag != 'atom':
        bv = bitvec(nk[1], 128)
        if bv is not None:
            return from_bits(bv[k[2]:k[2] + k[3]], False)
    b = atom(a.a[0], a.a[1], *nk)
    if a in SEL and b not in SEL:
        SEL[b] = ()
        cache[(a,)] = of_atom(b)
        SEL[b] = tuple(subst_delta(d, m, cache) for d in SEL[a])
    return of_atom(b)


def subst_delta(d, m, cache=None):
    if cache is None:
        cache = {}
    out = []
    for t in d:
        k = t[0]
        if k == 'dom':
            s = _subst_atom(t[1], m, cache)
            if len(s.a[1]) == 1 and s.a[0] == 0 and s.a[1][0][1] == 1:
                b = s.a[1][0][0]
                if b.a[0] == t[1].a[0] and b.a[1] == t[1].a[1]:
                    out.append(('dom', b, t[2]))
                    continue
            # the atom became something else: keep the bounds
            if isinstance(t[2], int):
                lo, hi = mask_bounds(t[1], t[2])
            else:
                lo, hi = t[2][0][0], t[2][-1][1]
            out.append(('ge', addc(s, -lo)))
            out.append(('ge', addc(neg(s), hi)))
        elif k == 'b':
            s = _subst_atom(t[1], m, cache)
            if len(s.a[1]) == 1:
                out.append(('b', s.a[1][0][0], t[2]))
        else:
            out.append((k, _subst(t[1], m, cache)))
    return tuple(out)


def show(n, depth=6):
    if isinstance(n, tuple):
        return '(' + ', '.join(show(x, depth - 1) for x in n) + ')'
    if not isinstance(n, Node):
        return str(n)
    if n.tag == 'loopid':
        return 'L%d' % n.id
    if n.tag == 'atom' and n.a[2][0] == 'phi':
        return 'phi[L%d,%s]' % (n.a[2][1].id, n.a[2][2])
    if depth <= 0:
        return '..'
    if n.tag == 'lin':
        parts = []
        for a, c in n.a[1]:
            s = show(a, depth - 1)
            parts.append(s if c == 1 else '-' + s if c == -1 else '%d*%s' % (c, s))
        if n.a[0] or not parts:
            parts.append(str(n.a[0]))
        return '+'.join(parts).replace('+-', '-')
    if n.tag == 'atom':
        k = n.a[2]
        if k[0] == 'sel':
            return 'sel%d' % n.id
        if k[0] == 'bits':
            return '%s[%d+%d]' % (show(k[1], depth - 1), k[2], k[3])
        return k[0] + '(' + ','.join(show(x, depth - 1) for x in k[1:]) + ')'
    if n.tag in ('ge', 'eq', 'ne'):
        return '%s %s 0' % (show(n.a[0], depth), {'ge': '>=', 'eq': '==', 'ne': '!='}[n.tag])
    if n.tag == 'b':
        return ('' if n.a[1] else '!') + show(n.a[0], depth)
    return n.tag + '(' + ', '.join(show(x, depth - 1) for x in n.a) + ')'


def show_facts(f, skip=()):
    out = []
    for a, d in f.dom.items():
        if isinstance(d, int):
            vs = list(dom_vals(a, d))
            out.append('%s in %s' % (show(a), vs if len(vs) < 12 else '%d values' % len(vs) if len(vs) < 100 else '%s..%s (%d)' % (vs[0], vs[-1], len(vs))))
        else:
            out.append('%s in %s' % (show(a), ','.join('[%s,%s]' % t for t in d)))
    out += ['%s >= 0' % show(l) for l in f.lins]
    out += ['%s != 0' % show(l) for l in f.nes]
    out += [('' if v else '!') + show(a) for a, v in f.bools.items()]
    out += ['%s = %s' % (show(a), show(l)) for a, l in f.sub.items()]
    return out
