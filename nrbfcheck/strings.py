"""What is known about a string from the tests it passed and failed: its text, a prefix, a suffix. Tests that cannot
come out as they did are found by evaluating them on what is known."""
from .dom import Node, addc, const, cval, is_const, p_ge, sub
from .interp import is_int


def text_of(x):
    """Text of a pattern that is a constant string or character, or None."""
    if is_int(x):
        return chr(cval(x)) if is_const(x) and 0 <= cval(x) < 0x110000 else None
    while isinstance(x, Node) and x.tag == 'ref':
        x = x.a[0]
    if isinstance(x, Node) and x.tag == 'str' and x.a[0] == 'c':
        return x.a[1]
    return None


def derived(s):
    """(name, which part, of which string, arguments) if it is part of another string."""
    if s.tag == 'str' and s.a[0] == 's':
        k = s.a[1].a[2]
        if k[0] == 'strsym' and k[1] in ('split_once', 'rsplit_once', 'strip_prefix', 'strip_suffix', 'slice') and len(
                k) > 4 and isinstance(k[3], Node) and k[3].tag == 'str':
            return k[1], k[2], k[3], k[4:]
    return None


class Texts:
    def __init__(self, facts):
        self.exact, self.pre, self.suf = {}, {}, {}
        self.bad = False
        self.changed = False
        self.f = facts
        self.strs = set()
        self.tests = []
        for a, v in facts.bools.items():
            k = a.a[2]
            if k[0] != 'bool' or not isinstance(k[1], str):
                continue
            if k[1] == 'streq' or k[1].startswith('str.'):
                self.tests.append((k[1], k[2:], v))
                for x in k[2:]:
                    if isinstance(x, Node) and x.tag == 'str':
                        self.see(x)

    def see(self, s):
        while s not in self.strs:
            self.strs.add(s)
            if s.tag == 'str' and s.a[0] == 'c':
                self.exact[s] = s.a[1]
                return
            d = derived(s)
            if d is None:
                return
            s = d[2]

    def is_(self, s, t):
        if s in self.exact:
            self.bad |= self.exact[s] != t
        else:
            self.exact[s] = t
            self.changed = True
        self.bad |= not t.startswith(self.pre.get(s, '')) or not t.endswith(self.suf.get(s, ''))

    def starts(self, s, t):
        if s in self.exact:
            self.bad |= not self.exact[s].startswith(t)
            return
        o = self.pre.get(s, '')
        if not (o.startswith(t) or t.startswith(o)):
            self.bad = True
        elif len(t) > len(o):
            self.pre[s] = t
            self.changed = True

    def ends(self, s, t):
        if s in self.exact:
            self.bad |= not self.exact[s].endswith(t)
            return
        o = self.suf.get(s, '')
        if not (o.endswith(t) or t.endswith(o)):
            self.bad = True
        elif len(t) > len(o):
            self.suf[s] = t
            self.changed = True

    def solve(self):
        if not self.tests:
            return
        for n in range(8):
            self.changed = False
            for name, x, v in self.tests:
                if v and name == 'streq':
                    for a, b in (x, x[::-1]):
                        if b in self.exact:
                            self.is_(a, self.exact[b])
                        if b in self.pre:
                            self.starts(a, self.pre[b])
                elif v and name in ('str.starts_with', 'str.strip_prefix', 'str.ends_with', 'str.strip_suffix') and len(x) == 2:
                    t = text_of(x[1])
                    if t is not None:
                        (self.starts if name.endswith(('starts_with', 'strip_prefix')) else self.ends)(x[0], t)
            for s in list(self.strs):
                d = derived(s)
                if d is not None:
                    self.relate(s, *d)
            if self.bad or not self.changed:
                return

    def relate(self, s, name, part, of, x):
        e, p = self.exact.get(s), self.pre.get(s, '')
        E, P = self.exact.get(of), self.pre.get(of, '')
        if name == 'slice':
            lo, hi = x[0], x[1]
            if is_const(lo) and is_const(hi):
                i, j = cval(lo), cval(hi)
                if i == 0:
                    self.starts(of, e if e is not None else p)
                for t in (E, P):
                    if t is not None and len(t.encode()) >= j:
                        try:
                            self.is_(s, t.encode()[i:j].decode())
                        except UnicodeDecodeError:
                            self.bad = True
            return
        t = text_of(x[0])
        if t is None:
            return
        if name == 'strip_prefix':
            if e is not None:
                self.is_(of, t + e)
            self.starts(of, t + p)
            if E is not None and E.startswith(t):
                self.is_(s, E[len(t):])
            elif P.startswith(t):
                self.starts(s, P[len(t):])
        elif name == 'strip_suffix':
            if e is not None:
                self.is_(of, e + t)
            self.starts(of, p)
            if E is not None and E.endswith(t):
                self.is_(s, E[:len(E) - len(t)])
        elif name in ('split_once', 'rsplit_once'):
            if E is not None and t in E:
                a, _, b = E.partition(t) if name == 'split_once' else E.rpartition(t)
                self.is_(s, b if part else a)
            elif part == 0:
                if e is not None:
                    self.starts(of, e + t)
                    self.bad |= name == 'split_once' and t in e
                else:
                    self.starts(of, p)
                if name == 'split_once' and t in P:
                    self.is_(s, P.partition(t)[0])

    def value(self, name, x):
        """Outcome of a test, if what is known decides it."""
        s = x[0]
        e, p, u = self.exact.get(s), self.pre.get(s, ''), self.suf.get(s, '')
        if name == 'streq':
            o = self.exact.get(x[1])
            if e is not None and o is not None:
                return e == o
            for a, b in (x, x[::-1]):
                c = self.exact.get(a)
                if c is not None and (not c.startswith(self.pre.get(b, '')) or not c.endswith(self.suf.get(b, ''))):
                    return False
            return None
        if name == 'str.is_char_boundary':
            k = x[1]
            if not is_const(k):
                return None
            b = (e if e is not None else p).encode()
            k = cval(k)
            if k < len(b):
                return b[k] & 0xC0 != 0x80
            return k == len(b) or (False if e is not None else None)
        t = text_of(x[1]) if len(x) == 2 else None
        if t is None:
            return None
        if name in ('str.starts_with', 'str.strip_prefix'):
            if e is not None:
                return e.startswith(t)
            if p.startswith(t):
                return True
            return False if not t.startswith(p) else None
        if name in ('str.ends_with', 'str.strip_suffix'):
            if e is not None:
                return e.endswith(t)
            if u.endswith(t):
                return True
            return False if not t.endswith(u) else None
        if name == 'str.contains':
            if e is not None:
                return t in e
            return True if t in p or t in u else None
        return None

    def impossible(self, length):
        if self.bad:
            return True
        for name, x, v in self.tests:
            r = self.value(name, x)
            if r is not None and r != v:
                return True
        for s in self.strs:
            if s.tag != 'str' or s.a[0] == 'c':
                continue
            n = length(s)
            if s in self.exact:
                k = len(self.exact[s].encode())
                if self.f.decide(p_ge(addc(n, -k))) is False or self.f.decide(p_ge(addc(sub(const(0), n), k))) is False:
                    return True
            else:
                k = max(len(self.pre.get(s, '').encode()), len(self.suf.get(s, '').encode()))
                if k and self.f.decide(p_ge(addc(n, -k))) is False:
                    return True
        return False


def clash(facts, length):
    """The tests of strings on a path contradict each other."""
    t = Texts(facts)
    t.solve()
    return bool(t.tests) and t.impossible(length)


def known(facts, name, x):
    """Outcome of a test of a string, if the tests before decide it."""
    t = Texts(facts)
    for s in x:
        if isinstance(s, Node) and s.tag == 'str':
            t.see(s)
    if not t.tests:
        return None
    t.solve()
    return t.value(name, x) if not t.bad else None
