"""Analysis units of the parser: what is interpreted, from which initial state, and where it is cut."""
import re
import time

from .dom import (INF, ONE, ZERO, Node, add, addc, atom, batom, const, mk, neg, of_atom, p_b, p_eq, p_ge, p_ne, p_not,
                  sub)
from .interp import (ISIZE_MAX, NOMERR, NONZERO, RESULT, Interp, Split, Undecided, adt, err, is_int, new_state, ok, some,
                     tup)

INCOMPLETE, ERROR, FAILURE = 0, 1, 2


def bare(path):
    """Path without lifetime arguments."""
    return re.sub(r"::<'\w+(?:, '\w+)*>|<'\w+(?:, '\w+)*>", '', path)


class Anchor(Exception):
    """Something the analysis depends on is no longer in the code."""


class Units:
    def __init__(self, prog):
        self.P = prog
        self.T = prog.T
        self.by_bare = {}
        for p, f in prog.fns.items():
            self.by_bare.setdefault(bare(p), []).append(f)
        self.notes = []
        self.base = atom(0, INF, 'input')
        self.end = of_atom(atom(0, ISIZE_MAX, 'inputlen'))
        self.cache = {}
        self.find_nts()

    # ------------------------------------------------------------ anchors

    def fn(self, suffix, required=True):
        r = [f for b, fs in self.by_bare.items() if b == suffix or b.endswith('::' + suffix) for f in fs]
        if len(r) == 1:
            return r[0]
        if required:
            raise Anchor('function %s: %d candidates' % (suffix, len(r)))
        return None

    def fn_types(self, f):
        """(argument types, return type) of a function with a body."""
        b = self.P.I[f['inst']]
        return b['locals'][1:b['argc'] + 1], b['locals'][0]

    def tname(self, ty):
        return self.T[ty]['s']

    def ok_type(self, ty):
        """Type X when `ty` is Result<(&[u8], X), _>."""
        t = self.T[ty]
        if t['k'] != 'adt' or t['path'] != RESULT:
            return None
        a = [x for x in t['args'] if isinstance(x, int)]
        u = self.T[a[0]]
        if u['k'] != 'tuple' or len(u['fields']) != 2:
            return None
        w = self.T[u['fields'][0]]
        if w['k'] != 'ref' or self.T[w['to']]['k'] != 'slice':
            return None
        return u['fields'][1]

    def is_parser(self, ty):
        t = self.T[ty]
        if t['k'] != 'ref' or not t['mut']:
            return False
        t = self.T[t['to']]
        return t['k'] == 'adt' and t['path'].endswith('BinaryParser')

    def parser_fns(self):
        out = []
        for p, f in self.P.fns.items():
            if f['inst'] is None or self.P.I[f['inst']] is None:
                continue
            a, r = self.fn_types(f)
            if a and self.is_parser(a[0]):
                out.append((p, f, a, r))
        return out

    def kind(self, ty):
        """Coarse description of a type, for matching recursive functions whose name changed."""
        t = self.T[ty]
        if t['k'] == 'tuple':
            return '(' + ','.join(self.kind(x) for x in t['fields']) + ')'
        if t['k'] == 'adt':
            return t['path'].rsplit('::', 1)[1]
        return t['k']

    NTS = {'member': ('parse_member_reference', 'ValueOrRef'),
           'classes': ('parse_classes', '(RefId,Object)'),
           'referenceable': ('parse_referenceable', 'RefId')}

    def find_nts(self):
        """The recursive nonterminals of the grammar: every cycle of the call graph goes through them."""
        pf = self.parser_fns()
        self.nt = {}
        for k, (name, ret) in self.NTS.items():
            c = [(p, f, a, r) for p, f, a, r in pf if bare(p).endswith('BinaryParser::' + name)]
            if not c:
                c = [(p, f, a, r) for p, f, a, r in pf
                     if self.ok_type(r) is not None and self.kind(self.ok_type(r)) == ret]
                if len(c) > 1:
                    c = [x for x in c if self.recursive(x[1]['inst'])]
            if len(c) != 1:
                raise Anchor('nonterminal %s: %d candidates' % (name, len(c)))
            self.nt[k] = c[0]
        self.nt_by_path = {v[0]: k for k, v in self.nt.items()}

    CALLS = {'call': ('parse_method_call', 'MethodCall'), 'return': ('parse_method_return', 'MethodReturn')}

    def call_fn(self, kind):
        """The function that reads a call or return with its array."""
        name, ret = self.CALLS[kind]
        pf = [x for x in self.parser_fns() if len(x[2]) == 3 and self.ok_type(x[3]) is not None
              and self.kind(self.ok_type(x[3])) == ret]
        c = [x for x in pf if bare(x[0]).endswith('BinaryParser::' + name)] or pf
        if len(c) != 1:
            raise Anchor('function of a %s: %d candidates' % (kind, len(c)))
        return c[0]

    def callees(self, inst):
        if not hasattr(self, '_callees'):
            self._callees = {}
        c = self._callees.get(inst)
        if c is None:
            c = set()
            b = self.P.I[inst]
            for t in self.mentions(b):
                c.add(t)
            self._callees[inst] = c
        return c

    def mentions(self, body):
        """Instances a body calls or passes on as a function value."""
        out = set()
        if body is None:
            return out

        def ty(i):
            t = self.T[i]
            if t['k'] == 'fndef':
                f = t.get('fn') or {}
                if f.get('inst') is not None:
                    out.add(f['inst'])
                for a in (f.get('args') or []) + (f.get('rargs') or []):
                    if isinstance(a, int):
                        deep(a)
            elif t['k'] == 'closure' and t.get('inst') is not None:
                out.add(t['inst'])

        seen = set()

        def deep(i):
            if i in seen:
                return
            seen.add(i)
            t = self.T[i]
            ty(i)
            for a in t.get('args', []) or []:
                if isinstance(a, int):
                    deep(a)
            if t['k'] == 'tuple':
                for a in t['fields']:
                    deep(a)
            if t['k'] in ('ref', 'ptr'):
                deep(t['to'])

        for l in body['locals']:
            deep(l)

        def walk(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ('ty', 'fty') and isinstance(v, int):
                        deep(v)
                    elif isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)

        walk(body['blocks'])
        for c in body.get('promoted') or []:
            walk(c)
        return out

    def recursive(self, inst):
        seen = set()
        work = list(self.callees(inst))
        while work:
            i = work.pop()
            if i == inst:
                return True
            if i in seen or self.P.I[i] is None or self.P.I[i]['crate'] != self.P.d['crate']:
                if i in seen or self.P.I[i] is None:
                    continue
            seen.add(i)
            work += self.callees(i)
        return False

    # ------------------------------------------------------------ cuts

    def cut_lps(self, summary):
        """Calls of the string parser are replaced by its outcomes, which are verified on their own."""

        def cut(I, fr, st, args, info, t):
            w = I.force(st, args[0])
            if w.tag != 'wire':
                return None
            base, off, end = w.a
            if I.decide(st, p_b(batom('lps', base, off, end))):
                n = atom(1, ISIZE_MAX, 'lpslen', base, off)
                p = atom(1, 5, 'lpspre', base, off)
                for q in (p_ge(sub(of_atom(n), of_atom(p))), p_ge(sub(sub(end, off), of_atom(n)))):
                    if not st.facts.assume(q):
                        return []
                s = mk('str', 'w', base, add(off, of_atom(p)), sub(of_atom(n), of_atom(p)))
                return [(ok(tup(mk('wire', base, add(off, of_atom(n)), end), mk('adt', self.lps_path, 0, (s,)))), st)]
            outs = []
            for v in summary:
                s2 = st.copy()
                s2.ev('lpserr', v, base, off, t.get('s') if t else None)
                e = mk('adt', NOMERR, v, (self.opaque_error(base, off, end),))
                outs.append((err(e), s2))
            return outs

        return cut

    def opaque_error(self, base, off, end):
        return mk('opq', 'error', base, off)

    # What the first byte of a nonterminal can be, and what can follow a library in front of it. These contracts are
    # used where the nonterminal is called, and verified where it is defined (grammar.py).
    FIRST = {'classes': (1, 2, 3, 4, 5), 'referenceable': (1, 2, 3, 4, 5, 6, 7, 15, 16, 17)}
    AFTER_LIB = {'classes': (1, 2, 3, 4, 5), 'referenceable': (1, 2, 3, 4, 5, 7, 15, 16, 17)}

    def byte_in(self, st, base, off, end, codes):
        """Assume that there is a byte and that it is one of these."""
        if not st.facts.assume(p_ge(addc(sub(end, off), -1))):
            return False
        a = atom(0, 255, 'rd', base, off, 1, 'u')
        d = 0
        for c in codes:
            d |= 1 << c
        return st.facts._set(a, st.facts.get(a) & d)

    def byte_not_in(self, st, base, off, end, codes):
        """States in which there is no byte or another one."""
        out = []
        s = st.copy()
        if s.facts.assume(p_ge(sub(off, end))):
            out.append(s)
        s = st.copy()
        a = atom(0, 255, 'rd', base, off, 1, 'u')
        d = s.facts.get(a)
        for c in codes:
            d &= ~(1 << c)
        if s.facts.assume(p_ge(addc(sub(end, off), -1))) and s.facts._set(a, d):
            out.append(s)
        return out

    def lib_valid(self, st, base, off, end):
        """Assume that a valid library record starts here; its ID, its name and its end."""
        if not self.byte_in(st, base, off, end, (12,)):
            return None
        f = st.facts
        if not f.assume(p_ge(addc(sub(end, off), -5))):
            return None
        a = atom(0, (1 << 32) - 1, 'rd', base, addc(off, 1), 4, 'u')
        o = addc(off, 5)
        n = atom(1, ISIZE_MAX, 'lpslen', base, o)
        p = atom(1, 5, 'lpspre', base, o)
        for q in (p_ge(addc(of_atom(a), -1)), p_ge(sub(const((1 << 31) - 1), of_atom(a))), p_b(batom('lps', base, o, end)),
                  p_ge(sub(of_atom(n), of_atom(p))), p_ge(sub(sub(end, o), of_atom(n)))):
            if not f.assume(q):
                return None
        s = mk('str', 'w', base, add(o, of_atom(p)), sub(of_atom(n), of_atom(p)))
        return (mk('adt', NONZERO, 0, (of_atom(a),)), mk('adt', self.lps_path, 0, (s,)), add(o, of_atom(n)))

    def lib_invalid(self, st, base, off, end):
        """States in which there is a byte 12, but no valid library."""
        out = []
        s = st.copy()
        if not self.byte_in(s, base, off, end, (12,)):
            return out
        x = s.copy()
        if x.facts.assume(p_ge(sub(addc(off, 4), end))):
            out.append(x)
        x = s.copy()
        a = atom(0, (1 << 32) - 1, 'rd', base, addc(off, 1), 4, 'u')
        if x.facts.assume(p_ge(addc(sub(end, off), -5))):
            y = x.copy()
            if y.facts.assume(p_eq(of_atom(a))):
                out.append(y)
            y = x.copy()
            if y.facts.assume(p_ge(addc(of_atom(a), -(1 << 31)))):
                out.append(y)
            y = x.copy()
            if y.facts.assume(p_b(batom('lps', base, addc(off, 5), end), False)):
                out.append(y)
        return out

    def cut_nt(self, kind):
        path, f, argt, rett = self.nt[kind]
        okt = self.ok_type(rett)

        def cut(I, fr, st, args, info, t):
            w = I.force(st, args[1])
            if w.tag != 'wire':
                raise Undecided('input of %s' % path)
            base, off, end = w.a
            site = t.get('s') if t else None
            extra = tuple(I.deep(st, I.snapshot(st, a)) for a in args[2:])
            if not I.mute and st.facts.decide(p_ge(addc(off, -1))) is not True:
                I.early.append((kind, extra, off, st.copy(), site, fr.body['path'] if fr else None))
            maps0 = self.parser_maps(I, st, args[0])
            st.serial += 1
            key = I.fresh(st)
            outs = []
            first = self.FIRST.get(kind)
            if self.parser_cell is None and isinstance(args[0], Node) and args[0].tag == 'mref':
                self.parser_cell = args[0].a
            # the same record was tried here before and is invalid: it stays so
            tried = any(e[0] == 'nt' and e[1] == kind and e[2] in ('err1', 'err2') and e[3] is base
                        and st.facts.value(sub(e[4], off)) == 0 for e in st.events())

            def finish(s, what, variant, havoc, newoff=None, v=None, ins=None):
                s.serial = max(s.serial, st.serial)
                if havoc is not None:
                    self.havoc_parser(I, s, args[0], key, havoc)
                elif ins is not None:
                    self.insert_lib(I, s, args[0], *ins)
                s.ev('nt', kind, what, base, off, newoff, extra, key, site, v, maps0)
                if variant is None:
                    outs.append((ok(tup(mk('wire', base, newoff, end), v)), s))
                else:
                    outs.append((err(mk('adt', NOMERR, variant, (mk('opq', 'error', 'nt', kind, key, variant),))), s))

            # success
            def success(s):
                if tried:
                    return
                n = of_atom(atom(1, ISIZE_MAX, 'ntlen', kind, key))
                if s.facts.assume(p_ge(sub(sub(end, off), n))):
                    v = I.make_sym(s, okt, 'nt', kind, key)
                    if not self.member_facts(I, s, kind, v):
                        return
                    finish(s, 'ok', None, -1, add(off, n), v)

            if first is None:
                success(st.copy())
                for variant in (ERROR, FAILURE):
                    finish(st.copy(), 'err%d' % variant, variant, variant)
                return outs
            s = st.copy()
            if self.byte_in(s, base, off, end, first):
                success(s)
            s = st.copy()
            lib = self.lib_valid(s, base, off, end)
            if lib is not None and self.byte_in(s, base, lib[2], end, self.AFTER_LIB[kind]):
                success(s)
            # failure
            s = st.copy()
            if self.byte_in(s, base, off, end, first + (12,)):
                finish(s, 'err2', FAILURE, FAILURE)
            # error: another record, or an error in the content
            for s in self.byte_not_in(st, base, off, end, first + (12,)):
                finish(s, 'other', ERROR, None)
            for s in self.lib_invalid(st, base, off, end):
                finish(s, 'badlib', ERROR, None)
            s = st.copy()
            lib = self.lib_valid(s, base, off, end)
            if lib is not None:
                for x in self.byte_not_in(s, base, lib[2], end, self.AFTER_LIB[kind]):
                    for y in self.lib_fresh(I, x, args[0], *lib[:2]):
                        finish(y, 'other', ERROR, None, ins=lib[:2])
                if self.byte_in(s, base, lib[2], end, self.AFTER_LIB[kind]):
                    finish(s, 'err1', ERROR, ERROR)
            s = st.copy()
            if self.byte_in(s, base, off, end, first):
                finish(s, 'err1', ERROR, ERROR)
            return outs

        return cut

    def member_facts(self, I, s, kind, v):
        """A number of nulls is positive (verified where members are read)."""
        if kind != 'member' or v.tag != 'sym':
            return True
        for i, x in enumerate(self.T[v.a[1]].get('variants') or ()):
            if len(x['fields']) == 1 and self.T[x['fields'][0]['ty']]['k'] == 'int':
                n = I.field(s, I.expand(s, v, i), 0, i)
                if not s.facts.assume(p_ge(addc(n, -1))) or not s.facts.assume(p_ge(addc(neg(n), (1 << 31) - 1))):
                    return False
        return True

    # Records whose parsers are verified on their own: their fields are taken as unknowns where they are called.
    CUT_RECORDS = {'ClassWithMembers': 3, 'ClassWithMembersAndTypes': 5, 'SystemClassWithMembers': 2,
                   'SystemClassWithMembersAndTypes': 4, 'BinaryArray': 7, 'BinaryMethodCall': 21,
                   'BinaryMethodReturn': 22}

    def record_fn(self, name):
        r = [f for b, fs in self.by_bare.items() for f in fs
             if b.endswith('::%s::parse' % name) and (b.startswith('record::') or '::record::' in b)]
        if len(r) != 1 or r[0]['inst'] is None:
            raise Anchor('parser of %s: %d candidates' % (name, len(r)))
        a, rett = self.fn_types(r[0])
        okt = self.ok_type(rett)
        if okt is None or len(a) != 1 or self.T[okt]['k'] != 'adt' or not self.T[okt]['path'].endswith('::' + name):
            raise Anchor('parser of %s' % name)
        return r[0], okt

    def cut_record(self, name, code):
        f, okt = self.record_fn(name)

        def cut(I, fr, st, args, info, t):
            w = I.force(st, args[0])
            if w.tag != 'wire':
                raise Undecided('input of %s' % name)
            base, off, end = w.a
            outs = []
            st.serial += 1
            key = I.fresh(st)
            site = t.get('s') if t else None
            for s in self.byte_not_in(st, base, off, end, (code,)):
                outs.append((err(mk('adt', NOMERR, ERROR, (mk('opq', 'error', 'rec', name, key, 0),))), s))
            s = st.copy()
            n = of_atom(atom(1, ISIZE_MAX, 'reclen', name, base, off))
            if self.byte_in(s, base, off, end, (code,)) and s.facts.assume(p_ge(sub(sub(end, off), n))):
                v = I.make_sym(s, okt, 'rec', name, base, off)
                s.ev('rec', name, 'ok', base, off, add(off, n), v, site)
                outs.append((ok(tup(mk('wire', base, add(off, n), end), v)), s))
            for variant in (ERROR, FAILURE):
                s = st.copy()
                if self.byte_in(s, base, off, end, (code,)):
                    s.ev('rec', name, 'err%d' % variant, base, off, None, None, site)
                    outs.append((err(mk('adt', NOMERR, variant, (mk('opq', 'error', 'rec', name, key, variant),))), s))
            return outs

        return f['path'], cut

    # ------------------------------------------------------------ parser state

    ROLES = (('libs', 'LengthPrefixedString'), ('classes', 'Class'), ('objects', 'Value'))

    def roles(self):
        """Which field of the parser holds the libraries, the class metadata and the objects."""
        r = self.cache.get('roles')
        if r is None:
            r = {}
            for i, f in enumerate(self.parser_fields()):
                t = self.T[f['ty']]
                a = [x for x in t.get('args', []) if isinstance(x, int)]
                if t['k'] != 'adt' or not t['path'].endswith('Map') or len(a) < 2:
                    continue
                v = self.T[a[1]]
                while v['k'] == 'ref':
                    v = self.T[v['to']]
                if v['k'] == 'adt':
                    for role, n in self.ROLES:
                        if v['path'].rsplit('::', 1)[1] == n:
                            if role in r:
                                raise Anchor('two maps of %s' % n)
                            r[role] = i
            for role, n in self.ROLES:
                if role not in r:
                    raise Anchor('no map of %s in the parser' % n)
            self.cache['roles'] = r
        return r

    def parser_value(self, I, st, arg):
        r = I.force(st, arg)
        v = I.force(st, I.load(st, r.a[0], r.a[1]))
        return I.expand(st, v) if v.tag == 'sym' else v

    def parser_maps(self, I, st, arg):
        v = self.parser_value(I, st, arg)
        return tuple(v.a[2][self.roles()[role]] for role, _ in self.ROLES)

    def lib_fresh(self, I, st, arg, k, v):
        """States in which the library is new, or the one that is known already."""
        from .models import INS, key_eq
        m = I.force(st, self.parser_value(I, st, arg).a[2][self.roles()['libs']])
        out, cur = [], st
        for e in reversed(m.a[2]):
            if e.tag != 'E':
                raise Undecided('libraries of a loop')
            op, k2, v2 = e.a[0].a[0]
            q = key_eq(I, cur, k2, k)
            q = q if isinstance(q, Node) else p_eq(ZERO if q else ONE)
            s = cur.copy()
            if s.facts.assume(q):
                out += self.same_lib(I, s, v2, v) if op is INS else [s]
            cur = cur.copy()
            if not cur.facts.assume(p_not(q)):
                return out
        if isinstance(m.a[1], Node) and m.a[1].tag == 'empty':
            return out + [cur]
        kk = mk('adt', k.a[0], 0, (cur.facts.norm(k.a[2][0]),))
        h = p_b(batom('has', m.a[1], kk))
        s = cur.copy()
        if s.facts.assume(p_not(h)):
            out.append(s)
        s = cur.copy()
        if s.facts.assume(h):
            f = self.parser_fields()[self.roles()['libs']]
            vt = [x for x in self.T[f['ty']]['args'] if isinstance(x, int)][1]
            out += self.same_lib(I, s, I.make_sym(s, vt, 'mapval', m.a[1], kk), v)
        return out

    def same_lib(self, I, st, a, b):
        from .models import ptr_eq

        def inner(x):
            x = I.force(st, x)
            while x.tag in ('ref', 'sym', 'adt'):
                x = I.force(st, x.a[0] if x.tag == 'ref' else I.field(st, x, 0, 0))
            return x
        q = ptr_eq(I, None, st, [inner(a), inner(b)], None, None)
        if q is True or q is False:
            return [st] if q else []
        return [st] if st.facts.assume(q) else []

    def insert_lib(self, I, st, arg, k, v):
        from .models import INS
        r = I.force(st, arg)
        p = self.parser_value(I, st, arg)
        i = self.roles()['libs']
        m = I.force(st, p.a[2][i])
        fs = list(p.a[2])
        fs[i] = mk('map', m.a[0], m.a[1], m.a[2] + (mk('E', tup(INS, k, v)),))
        I.store(st, r.a[0], r.a[1], mk('adt', p.a[0], 0, tuple(fs)))

    def havoc_parser(self, I, st, self_arg, key, variant):
        """After a recursive call the parser's maps hold unknown contents."""
        r = I.force(st, self_arg)
        v = self.parser_value(I, st, self_arg)
        fs = []
        for f, x in zip(self.parser_fields(), v.a[2]):
            fs.append(self.map_node(f, ('nt', key, variant)))
        I.store(st, r.a[0], r.a[1], mk('adt', v.a[0], 0, tuple(fs)))

    def parser_fields(self):
        t = self.P.adts.get(self.parser_path())
        return t['variants'][0]['fields']

    def parser_path(self):
        for p in self.P.adts:
            if p.endswith('BinaryParser'):
                return p
        raise Anchor('BinaryParser')

    def map_node(self, f, key):
        ty = self.T[f['ty']]
        if ty['k'] == 'adt' and ty['path'].endswith('Map'):
            return mk('map', ty['path'], mk('mapbase', f['name'], *key), ())
        return mk('sym', atom(0, INF, 'field', f['name'], *key), f['ty'])

    # ------------------------------------------------------------ running

    def conversions(self):
        """Functions that turn a value with its type code into a Value."""
        out = []
        for p, f in self.P.fns.items():
            b = f['inst'] is not None and self.P.I[f['inst']]
            if b and b['argc'] == 1:
                a, r = self.T[b['locals'][1]], self.T[b['locals'][0]]
                if a['k'] == r['k'] == 'adt' and r['path'].endswith('value::Value') and a['path'].endswith('::ValueWithCode'):
                    out.append((p, f))
        return out

    def cut_conversion(self):
        def cut(I, fr, st, args, info, t):
            v = I.deep(st, args[0])
            return [(I.make_sym(st, t['dty'], 'conv', v), st)] if t and t.get('dty') is not None else None
        return cut

    def interp(self, cut_lps=True, cut_nts=True, merge=True, cut_records=False):
        I = Interp(self.P)
        I.merge_local = merge
        lf = self.fn('LengthPrefixedString::parse')
        self.lps_path = [p for p in self.P.adts if p.endswith('::LengthPrefixedString')][0]
        if cut_lps:
            I.cuts[lf['path']] = self.cut_lps(self.lps_errors())
        if cut_nts:
            for k in self.nt:
                I.cuts[self.nt[k][0]] = self.cut_nt(k)
            t = self.T[self.ok_type(self.nt['member'][3])]
            if t['k'] == 'adt' and t['enum']:
                I.type_facts[t['path']] = self.null_count
        if cut_records:
            for n, code in self.CUT_RECORDS.items():
                p, c = self.cut_record(n, code)
                I.cuts[p] = c
            for p in self.P.adts:
                if p.split('::')[-1] in ('MemberTypeInfo', 'ClassWithMembersAndTypes', 'SystemClassWithMembersAndTypes'):
                    I.type_facts[p] = self.same_length
        return I

    def null_count(self, I, st, v):
        """A member's number of nulls is one that was read (see `grammar.member_any`)."""
        n = v.a[2][0] if v.a[2] else None
        if n is not None and is_int(n) and st.facts.decide(p_ge(addc(neg(n), (1 << 31) - 1))) is not True:
            st.facts.assume(p_ge(addc(n, -1)))
            st.facts.assume(p_ge(addc(neg(n), (1 << 31) - 1)))

    def same_length(self, I, st, v):
        """Of a class with types that was read: a type and its information for each name (see `spec.member_type_info`)."""
        def lists(v, depth):
            for x in v.a[2]:
                if not isinstance(x, Node):
                    continue
                if x.tag == 'vec':
                    yield I.length(st, x)
                elif x.tag == 'sym' and depth and self.T[x.a[1]]['k'] == 'adt' and self.T[x.a[1]]['path'].split('::')[-1] in (
                        'ClassInfo', 'MemberTypeInfo'):
                    yield from lists(I.expand(st, x), depth - 1)
        n = list(lists(v, 1))
        for x in n[1:]:
            if st.facts.decide(p_eq(sub(x, n[0]))) is not True:
                st.facts.assume(p_eq(sub(x, n[0])))

    def lps_errors(self):
        """The error variants the string parser can return."""
        r = self.cache.get('lps')
        if r is None:
            I = self.interp(cut_lps=False, merge=False)
            outs = self.run(I, self.fn('LengthPrefixedString::parse'))
            r = set()
            for v, s in outs:
                if v.a[1] == 1:
                    r.add(I.variant_of(s, v.a[2][0]))
            r = self.cache['lps'] = tuple(sorted(r))
        return r

    def input(self, off=ZERO):
        return mk('wire', self.base, off, self.end)

    def parser_state(self, I, st, name='0'):
        p = self.parser_path()
        cell = ('parser',)
        self.parser_cell = (cell, ())
        st.mem[cell] = mk('adt', p, 0, tuple(self.map_node(f, ('init', name)) for f in self.parser_fields()))
        return mk('mref', cell, ())

    def run(self, I, f, args=None, st=None):
        st = st or new_state()
        inst = f['inst'] if isinstance(f, dict) else f
        body = self.P.I[inst]
        if args is None:
            args = []
            used = False
            for i in range(body['argc']):
                ty = body['locals'][i + 1]
                t = self.T[ty]
                if self.is_parser(ty):
                    args.append(self.parser_state(I, st))
                elif not used and t['k'] == 'ref' and self.T[t['to']]['k'] == 'slice' and \
                        self.T[self.T[t['to']]['elem']]['s'] == 'u8':
                    args.append(self.input())
                    used = True
                else:
                    args.append(I.make_sym(st, ty, 'arg', i))
        I.entry = (inst, tuple(args), st.copy())
        return I.call_inst(None, st, inst, args, None)
