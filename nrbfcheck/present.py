"""How values are presented: the public accessors of values, and deserialization with serde.

The target type of a deserialization is unknown. The analysis gives every `Deserializer` method an arbitrary visitor:
what it is asked to visit is an event, its result an unknown. A visitor that gets a sequence is driven as an abstract
loop, which takes an arbitrary number of elements."""
import re

from .dom import INF, ONE, ZERO, Node, add, addc, atom, batom, const, mk, of_atom, p_b, p_eq, p_ge, show, sub
from .interp import ISIZE_MAX, NONE, OPTION, RESULT, Split, Undecided, err, is_int, new_state, ok
from .models import it_len, it_next, map_len, multi, str_eq
from .rules import Report, panics
from .units import Anchor
from .walk import Analysis, Differ, W
from . import models, strings

# ------------------------------------------------------------ accessors (C09)

def accessor_unit(U):
    rep = Report('accessors of date-times and time spans')
    for suffix, spec in (('DateTime::ticks', ticks), ('DateTime::kind', kind), ('TimeSpan::value', span_value)):
        f = public_fn(U, suffix)
        I = U.interp(merge=False)
        st = new_state()
        body = U.P.I[f['inst']]
        args = [I.make_sym(st, body['locals'][1], 'arg', 0)]
        outs = U.run(I, f, list(args), st)
        an = Analysis(U, I, f['path'], f['span'])
        for v, s in outs:
            each(an, s, v, lambda w: spec(w, args[0]))
        rep.add(an)
        rep.stats['outcomes'] = rep.stats.get('outcomes', 0) + len(outs)
        rep.stats['unmodelled'] = sorted(I.unknown)
        panics(rep, U, I, f)
    return rep


def public_fn(U, suffix):
    r = [f for b, fs in U.by_bare.items() for f in fs
         if b.startswith('value::') and b.endswith('::' + suffix) and f['inst'] is not None]
    if len(r) != 1:
        raise Anchor('function value::%s: %d candidates' % (suffix, len(r)))
    return r[0]


def each(an, st, value, spec, log=None):
    """Compare one outcome, in every way of deciding what the specification has to know."""
    def body(s):
        w = W(an, s, ZERO, value, s.events() if log is None else log)
        try:
            spec(w)
        except Differ as e:
            if an.known(e.tags, e.what):
                return
            x = an.feasible(s, w)
            if x is not None:
                an.report(e.tags, e.what, x, w)

    an.explore(st, body)


def number(w, v):
    v = w.unwrap(v)
    if not is_int(v):
        raise Undecided('representation of %s' % show(v)[:80])
    return v


def ticks(w, arg):
    n = number(w, arg)
    v = number(w, w.value)
    same_number(w, v, bits(w.I, w.st, n, 0, 62, True), 'the ticks of a date-time are not its low 62 bits')


def bits(I, st, n, lo, cnt, signed):
    a = I.to_range(st, I.int_op(st, 'Shr', n, const(lo), (64, True)), cnt, signed)
    return a


def same_number(w, v, want, what):
    from .dom import as_signed
    w.an.stats.obligations += 1
    if not w.when(p_eq(sub(v, want))):
        raise Differ({'C09'}, what)


def kind(w, arg):
    n = number(w, arg)
    k = bits(w.I, w.st, n, 62, 2, False)
    v = w.I.res(w.st, w.value)
    w.an.stats.obligations += 1
    i = w.I.variant_of(w.st, v)
    name = None
    if i == 1:
        name = w.vname(w.I.field(w.st, v, 0, 1))
    want = 'Utc' if w.when(p_eq(addc(k, -1))) else 'Local' if w.when(p_eq(addc(k, -2))) else None
    if name != want:
        raise Differ({'C09'}, 'a date-time whose kind is %s is said to be %s' % (want, name))


def span_value(w, arg):
    same_number(w, number(w, w.value), number(w, arg), 'the value of a time span is not its number')


# ------------------------------------------------------------ serde: the visitor

def trait_fn(info):
    from .interp import npath
    p = npath(info.get('tpath') or info['path'])
    return '::'.join(p.rsplit('::', 2)[-2:])


def is_error_ctor(name):
    return name.startswith('Error::')


ERRORS = ('custom', 'invalid_type', 'invalid_value', 'invalid_length', 'unknown_variant', 'unknown_field',
          'missing_field', 'duplicate_field')


class Driver:
    def __init__(self, U):
        self.U = U
        self.seqs = {}
        self.own = 'value::'

    def install(self, I):
        I.call_hook = self.call

    def crate_adt(self, I, st, v):
        """The deserializer that is passed on, when it is a type of the crate."""
        v = I.res(st, v) if isinstance(v, Node) else v
        if isinstance(v, Node) and v.tag == 'adt' and v.a[0] in self.U.P.adts and not v.a[0].startswith(('std::', 'serde')):
            return v
        if isinstance(v, Node) and v.tag == 'sym':
            t = I.T[v.a[1]]
            if t['k'] == 'adt' and t['path'] in self.U.P.adts and not t['path'].startswith(('std::', 'serde')):
                return v
        return None

    def call(self, I, fr, st, info, args, t):
        name = trait_fn(info)
        tr, _, m = name.partition('::')
        if tr == 'Error' and m in ERRORS and 'serde' in (info.get('tpath') or info['path']):
            return [(mk('opq', 'error', 'serde', m), st)]
        if tr == 'Visitor' and info['kind'] == 'unresolved':
            if m == 'visit_seq':
                return self.visit_seq(I, fr, st, args, t)
            if m.startswith('visit_'):
                return self.visit(I, fr, st, m, args, t)
        if tr == 'DeserializeSeed' and m == 'deserialize' and info['kind'] == 'unresolved':
            return self.given(I, st, 'seed', None, args[1], t)
        if tr == 'Deserialize' and m == 'deserialize':
            d = self.crate_adt(I, st, args[0])
            own = info['path'].startswith('<' + 'data_type::') or info.get('crate') == self.U.P.d['crate']
            if d is not None and (info['kind'] == 'unresolved' or not own):
                return self.given(I, st, 'deser', self.self_type(I, info), d, t)
        return None

    def self_type(self, I, info):
        a = [x for x in info.get('targs') or info.get('args') or () if isinstance(x, int)]
        return I.T[a[0]]['s'] if a else info['path']

    def given(self, I, st, kind, ty, d, t):
        st.serial += 1
        k = I.fresh(st)
        r = I.make_sym(st, t['dty'], 'given', kind, k)
        st.ev(kind, ty, I.deep(st, d), r, t.get('s'))
        return [(r, st)]

    def visit(self, I, fr, st, m, args, t):
        st.serial += 1
        k = I.fresh(st)
        x = None
        if len(args) > 1:
            x = I.snapshot(st, args[1])
            x = mk('mrefto', I.deep(st, x.a[0])) if x.tag == 'mrefto' else I.deep(st, x)
        r = I.make_sym(st, t['dty'], 'visit', m, k)
        st.ev('visit', m, x, r, t.get('s'))
        if m == 'visit_map':
            a = I.res(st, args[1])
            if a.tag == 'mref':
                # the visitor takes some of the entries
                n = of_atom(atom(0, ISIZE_MAX, 'sym', 'taken', k))
                old = I.load(st, a.a[0], a.a[1])
                I.store(st, a.a[0], a.a[1], moved(I.deep(st, old), n, st))
        return [(r, st)]

    def visit_seq(self, I, fr, st, args, t):
        a = I.res(st, args[1])
        if a.tag != 'mref':
            cell = ('access', fr.inst if fr else -1, t.get('s'))
            st.mem[cell] = a
            a = mk('mref', cell, ())
        while True:
            x = I.force(st, I.load(st, a.a[0], a.a[1]))
            if x.tag != 'mref':
                break
            a = x
        if x.tag != 'adt':
            raise Undecided('sequence access %s' % show(x)[:80])
        inst = self.next_element(x.a[0])
        st.serial += 1
        key = I.fresh(st)
        st.ev('visit', 'visit_seq', None, None, t.get('s'))
        rty = self.ret_type(inst)
        t2 = {'s': t.get('s'), 'dty': rty, 't': 0, 'fty': None}
        seed = mk('opq', 'const', 'seed')

        def step(s):
            out = []
            s1 = s.copy()
            s1.ev('seqend', 'stop')
            out.append(('exit', 'stop', s1))
            for v, s2 in multi(I, s.copy(), lambda z: I.call_inst(fr, z, inst, [a, seed], t2)):
                for how, s3 in multi(I, s2, lambda z: [(self.what(I, z, v), z)]):
                    if how == 'some':
                        out.append(('back', None, s3))
                        continue
                    s3.ev('seqend', how)
                    if how == 'none':
                        for v2, s4 in multi(I, s3, lambda z: I.call_inst(fr, z, inst, [a, seed], t2)):
                            for again, s5 in multi(I, s4, lambda z: [(self.what(I, z, v2), z)]):
                                if again != 'none':
                                    s5.ev('seqend', 'again')
                                out.append(('exit', how, s5))
                        continue
                    out.append(('exit', how, s3))
            return out

        res = []
        for _k, how, s in I._loops.run_loop(I, ('drive', fr.inst if fr else -1, t.get('s'), key), st.copy(), step, None):
            if how == 'err':
                res.append((err(mk('opq', 'error', 'serde', 'element')), s))
                continue
            s.serial += 1
            r = I.make_sym(s, t['dty'], 'visit', 'visit_seq', I.fresh(s))
            s.ev('seqres', r)
            res.append((r, s))
        return res

    def what(self, I, st, v):
        v = I.force(st, v)
        if I.variant_of(st, v) == 1:
            return 'err'
        return 'some' if I.variant_of(st, I.force(st, I.field(st, v, 0, 0))) == 1 else 'none'

    def next_element(self, path):
        r = [f for p, f in self.U.P.fns.items() if p.endswith('::next_element_seed') and f['inst'] is not None
             and p.startswith('<' + path) and not p[len(path) + 1].isalnum()]
        if len(r) != 1:
            raise Undecided('next_element_seed of %s: %d candidates' % (path, len(r)))
        return r[0]['inst']

    def ret_type(self, inst):
        return self.U.P.I[inst]['locals'][0]


def moved(v, n, st):
    """The value with the iterator over a map in it moved on to an unknown position."""
    if not isinstance(v, Node):
        return v
    if v.tag == 'it' and v.a[0] == 'mapseq':
        end = v.a[3]
        if not st.facts.assume(p_ge(sub(end, n))):
            raise Undecided('position in a map')
        return mk('it', 'mapseq', v.a[1], n, *v.a[3:])
    if v.tag in ('adt', 'it', 'tup'):
        return mk(v.tag, *[tuple(moved(y, n, st) for y in x) if isinstance(x, tuple) else moved(x, n, st) for x in v.a])
    return v


# ------------------------------------------------------------ serde: what has to be presented

VISITS = {'Boolean': 'bool', 'Byte': 'u8', 'SByte': 'i8', 'Char': 'char', 'Double': 'f64', 'Single': 'f32', 'Int16': 'i16',
          'Int32': 'i32', 'Int64': 'i64', 'UInt16': 'u16', 'UInt32': 'u32', 'UInt64': 'u64', 'TimeSpan': 'i64',
          'DateTime': 'i64'}
BOXED = {'System.Boolean': 'bool', 'System.Byte': 'u8', 'System.SByte': 'i8', 'System.Char': 'char', 'System.Double': 'f64',
         'System.Single': 'f32', 'System.Int16': 'i16', 'System.Int32': 'i32', 'System.Int64': 'i64', 'System.UInt16': 'u16',
         'System.UInt32': 'u32', 'System.UInt64': 'u64'}
LIST = 'System.Collections.Generic.List'


class Shown:
    """One outcome of a Deserializer method."""

    mode = None

    def __init__(self, unit, w):
        self.unit, self.w, self.I = unit, w, w.I
        self.evs = [e for _i, e in w.events() if e[0] in ('visit', 'seed', 'deser', 'seqend', 'seqres', 'loop')]

    def find(self, kind):
        return [e for e in self.evs if e[0] == kind]

    # -------- results

    def failed(self):
        v = self.I.res(self.w.st, self.w.value)
        return v.tag == 'adt' and v.a[0] == RESULT and v.a[1] == 1

    def must_fail(self, tags, what):
        self.w.an.stats.obligations += 1
        if not self.failed():
            raise Differ(tags, what)

    def result(self, r, tags, what, may_fail=None):
        """The outcome is the result `r` of the visitor; it may fail instead where `may_fail()`."""
        w, I = self.w, self.I
        w.an.stats.obligations += 1
        v = I.res(w.st, w.value)
        r = I.res(w.st, r)
        if v is r:
            return
        if v.tag != 'adt' or v.a[0] != RESULT:
            raise Differ(tags, 'the result for %s is not the one of the target' % what)
        i = I.variant_of(w.st, r)
        if i == 1:
            if v.a[1] != 1:
                raise Differ(tags, 'an error of the target is ignored for %s' % what)
            return
        if v.a[1] == 1:
            if may_fail is not None and may_fail():
                return
            raise Differ(tags, '%s is rejected although the target accepts it' % what)
        x = I.field(w.st, r, 0, 0)
        if not w.same_node(x, v.a[2][0]):
            raise Differ(tags, 'the result for %s is not the one of the target' % what)

    def one_visit(self, tags, what):
        vs = self.find('visit')
        self.w.an.stats.obligations += 1
        if len(vs) > 1:
            raise Differ(tags, '%s is presented more than once' % what)
        if not vs:
            raise Differ(tags, '%s is rejected' % what if self.failed() else '%s is not presented' % what)
        return vs[0]

    # -------- values

    def deserializer_of(self, d, value):
        """d is a deserializer of the crate for exactly this value."""
        w = self.w
        if not self.is_valdes(d):
            raise Undecided('deserializer %s' % show(d)[:80])
        return w.same_node(w.unwrap(d), w.unwrap(value))

    def is_valdes(self, d):
        return d.tag == 'adt' and d.a[0] == self.unit.valdes or d.tag == 'sym' and \
            self.I.T[d.a[1]].get('path') == self.unit.valdes

    def value(self, value, mode):
        w, I = self.w, self.I
        name = w.vname(value)
        x = w.unwrap(value)
        if mode == 'option':
            e = self.one_visit({'C24', 'C23'}, 'an optional value')
            if name == 'Null':
                if e[1] != 'visit_none':
                    raise Differ({'C24'}, 'null is presented with %s to an optional target' % e[1])
            else:
                if e[1] != 'visit_some':
                    raise Differ({'C24'}, 'a value (%s) is presented with %s to an optional target' % (name, e[1]))
                if not self.deserializer_of(e[2], value):
                    raise Differ({'C24', 'C23'}, 'an optional target gets another value')
            return self.result(e[3], {'C24', 'C23'}, 'an optional value')
        f = lambda: I.field(w.st, x, 0, I.variant_of(w.st, x))  # noqa: E731
        if name == 'Object':
            return self.object(f(), mode)
        if name == 'Array':
            parts = I.parts(w.st, w.unwrap(f()))
            n = I.seq_len(w.st, parts)
            return self.seq(parts, n, n, 'an array')
        what = 'a value of kind %s' % name
        tags = {'C23'}
        e = self.one_visit(tags, what)
        m = e[1]
        if name in VISITS:
            if m != 'visit_' + VISITS[name]:
                raise Differ(tags, '%s is presented with %s' % (what, m))
            if not w.same_node(f(), e[2]):
                raise Differ(tags, '%s is presented as another value' % what)
        elif name == 'Null':
            if m != 'visit_unit':
                raise Differ(tags | {'C24'}, 'null is presented with %s' % m)
        elif name == 'String':
            if m != 'visit_borrowed_str':
                raise Differ(tags | {'C29'}, 'a string is presented with %s' % m)
            if not w.same_node(w.unwrap(f()), w.unwrap(e[2])):
                raise Differ(tags, 'a string is presented as another one')
        elif name == 'Decimal':
            if m not in ('visit_string', 'visit_str'):
                raise Differ(tags, 'a decimal is presented with %s' % m)
            t = w.unwrap(e[2])
            if not (t.tag == 'str' and t.a[0] == 's' and t.a[1].a[2][0] == 'tostring'):
                if t.tag in ('opq', 'sym'):
                    raise Undecided('text of a decimal: %s' % show(t)[:80])
                raise Differ(tags, 'a decimal is not presented as its text')
            if not w.same_node(t.a[1].a[2][2], w.unwrap(f())):
                raise Differ(tags, 'a decimal is presented as another value')
        else:
            raise Undecided('value of kind %s' % name)
        self.result(e[3], tags, what)

    def ofield(self, o, name):
        t = self.I.P.adts[o.a[0]] if o.tag == 'adt' else self.I.T[o.a[1]]
        names = [f['name'] for f in t['variants'][0]['fields']]
        if name not in names:
            raise Undecided('an object has no field %s' % name)
        return self.I.field(self.w.st, o, names.index(name))

    def object(self, o, mode):
        w, I = self.w, self.I
        o = w.unwrap(o)
        m = I.force(w.st, self.ofield(o, 'members'))
        if m.tag != 'map':
            raise Undecided('members of an object')
        if mode == 'struct':
            return self.map(m, 'an object for a struct')
        lib = w.unwrap(self.ofield(o, 'library'))
        if I.variant_of(w.st, lib) == 1:
            return self.map(m, 'an object of a library')
        cls = w.unwrap(self.ofield(o, 'class'))
        stem = cls
        if w.when(p_b(batom('str.contains', cls, const(96)))):
            stem = mk('str', 's', atom(0, INF, 'strsym', 'split_once', 0, cls, const(96)))
        c = self.which(stem, tuple(BOXED) + (LIST,))
        if c in BOXED:
            return self.boxed(m, c)
        if c == LIST:
            return self.list(m)
        return self.map(m, 'an object of another system class')

    def which(self, s, names):
        """Which of the constants a string is."""
        w = self.w
        f = w.st.facts
        for n in names:
            c = mk('str', 'c', n)
            x = (s, c) if s.id < c.id else (c, s)
            r = strings.known(f, 'streq', x)
            if r is None:
                y = f.copy()
                if not y.assume(p_b(batom('streq', *x))) or strings.clash(y, self.I.str_len):
                    r = False
            if r is None:
                r = w.when(str_eq(self.I, w.st, s, c))
            if r:
                return n
        return None

    # -------- maps

    def map(self, m, what):
        w, I = self.w, self.I
        tags = {'C27'}
        e = self.one_visit(tags, what)
        if e[1] != 'visit_map':
            raise Differ(tags | ({'C25', 'C26'} if what == 'an object of a library' else set()),
                         '%s is presented with %s' % (what, e[1]))
        self.entries(e[2], m, tags, what)
        n = map_len(I, w.st, m)

        self.result(e[3], tags, what, lambda: not w.when(p_eq(sub(taken(e[3]), n))))

    def entries(self, access, m, tags, what):
        """The map access gives every member once, under its name."""
        w, I = self.w, self.I
        if access is None or access.tag not in ('mrefto', 'adt'):
            raise Undecided('map access %s' % show(access)[:80])
        a = access.a[0] if access.tag == 'mrefto' else access
        if a.tag != 'adt' or not a.a[0].endswith('::MapDeserializer'):
            raise Undecided('map access %s' % show(a)[:80])
        its = [x for x in a.a[2] if isinstance(x, Node) and x.tag == 'it']
        if len(its) != 1:
            raise Undecided('map access %s' % show(a)[:80])
        it = its[0]
        base = it
        while base.tag == 'it' and base.a[0] in ('map', 'fuse', 'filter', 'copied'):
            if base.a[0] == 'filter':
                raise Differ(tags, 'some members of %s are left out' % what)
            base = base.a[1]
        if base.tag != 'it' or base.a[0] != 'mapseq':
            raise Undecided('entries of a map: %s' % show(base)[:80])
        if base.a[1] is not m:
            raise Differ(tags, 'other members than those of %s are presented' % what)
        w.an.stats.obligations += 1
        if not w.when(p_eq(base.a[2])) or not w.when(p_eq(sub(base.a[3], map_len(I, w.st, m)))):
            raise Differ(tags, 'not all members of %s are presented' % what)
        st = w.st.copy()
        g = of_atom(atom(0, ISIZE_MAX, 'ghost', 'entry', base))
        if not st.facts.assume(p_ge(addc(sub(map_len(I, st, m), g), -1))):
            return
        key, val = models.map_entry_at(I, st, m, g, base.a[5], base.a[6])
        it2 = at_position(it, base, g)
        mode = self.mode
        for x, _i, s in multi(I, st, lambda z: it_next(I, None, z, it2, {'s': None, 'dty': None, 't': 0})):
            def entry(w2, x=x):
                me = Shown(self.unit, w2)
                if x is None:
                    raise Differ(tags, 'an entry of %s is missing' % what)
                p = w2.unwrap(x)
                if p.tag != 'tup' or len(p.a[0]) != 2:
                    raise Undecided('entry %s' % show(p)[:80])
                k, d = me.into(p.a[0][0]), me.into(p.a[0][1])
                if mode != 'struct' and (k.tag == 'str' or k.tag == 'adt' and re.match(
                        r'serde(_core)?::.*::(StrDeserializer|StringDeserializer)$', k.a[0])):
                    raise Differ({'C29'}, 'the names of the members of %s are presented as copies' % what)
                if not me.is_text(k, key):
                    raise Differ(tags, 'a member of %s is presented under another name' % what)
                if not me.deserializer_of(d, val):
                    raise Differ(tags, 'a member of %s is presented with another value' % what)
            each(w.an, s, None, entry, [])

    def into(self, x):
        """The deserializer a type of the crate is turned into."""
        w, I = self.w, self.I
        x = w.I.res(w.st, x)
        if x.tag == 'adt' and x.a[0] in self.unit.U.P.adts:
            fs = [f for p, f in self.unit.U.P.fns.items() if p.endswith('::into_deserializer') and f['inst'] is not None
                  and p.startswith('<' + x.a[0]) and not p[len(x.a[0]) + 1].isalnum()]
            if len(fs) == 1:
                outs = I.call_inst(None, w.st, fs[0]['inst'], [x], None)
                if len(outs) != 1:
                    raise Undecided('into_deserializer')
                return I.deep(w.st, outs[0][0])
        return I.deep(w.st, x)

    def is_text(self, k, key):
        """A string, or serde's deserializer of one."""
        w = self.w
        k = w.I.res(w.st, k)
        if k.tag == 'adt' and k.a[0].rsplit('::', 1)[-1] in ('BorrowedStrDeserializer', 'StrDeserializer', 'StringDeserializer'):
            k = k.a[2][0]
        return w.same_node(w.unwrap(k), w.unwrap(key))

    # -------- boxed primitives

    def boxed(self, m, cls):
        w, I = self.w, self.I
        tags = {'C25'}
        prim = BOXED[cls]
        what = 'an object of class %s' % cls
        n = map_len(I, w.st, m)
        vs = self.find('visit')
        ds = self.find('deser')
        one = w.when(p_eq(addc(n, -1)))
        if not one:
            return self.must_fail(tags, '%s with more than one member or none is accepted' % what)
        name = mk('str', 'c', 'm_value')
        has = batom('has', m.a[1], name)
        keys = self.unit.maptypes(I)
        key0, ent0 = models.map_entry_at(I, w.st, m, ZERO, *keys)
        kp = str_eq(I, w.st, w.unwrap(key0), name)
        # of a single entry: it has the name exactly when the map has an entry of this name
        d1, d2 = w.st.facts.decide(kp), w.st.facts.decide(p_b(has))
        if d1 is not None and d2 is not None and d1 != d2:
            raise Split([])
        named = d1 if d1 is not None else d2 if d2 is not None else w.when(kp)
        if not named:
            return self.must_fail(tags, '%s with another member is accepted' % what)
        good = [e for e in ds if e[1] == prim and self.member_value(e[2], m, name, ent0)]
        if not good:
            if self.failed() and not vs:
                if not ds:
                    raise Differ(tags, '%s is rejected although it has only m_value' % what)
                raise Differ(tags, 'the member of %s is read as %s' % (what, ds[0][1]))
            if ds:
                raise Differ(tags, 'the member of %s is read as %s or is another one' % (what, ds[0][1]))
            raise Undecided('value of %s' % what)
        r = good[0][3]
        if I.variant_of(w.st, I.force(w.st, r)) == 1:
            return self.must_fail(tags, '%s is accepted although its member is of another type' % what)
        e = self.one_visit(tags, what)
        if e[1] != 'visit_' + prim:
            raise Differ(tags, '%s is presented with %s' % (what, e[1]))
        if not w.same_node(I.field(w.st, I.force(w.st, r), 0, 0), e[2]):
            raise Differ(tags, '%s is presented as another value' % what)
        self.result(e[3], tags, what)

    def member_value(self, d, m, name, ent0):
        w = self.w
        if not self.is_valdes(d):
            raise Undecided('deserializer %s' % show(d)[:80])
        x = w.unwrap(d)
        if w.same_node(x, w.unwrap(ent0)):
            return True
        return w.same_node(x, w.unwrap(self.I.make_sym(w.st, self.unit.maptypes(self.I)[1], 'mapval', m.a[1], name)))

    # -------- lists

    def list(self, m):
        w, I = self.w, self.I
        tags = {'C26'}
        what = 'a generic list'
        if not w.when(p_eq(addc(map_len(I, w.st, m), -3))):
            return self.must_fail(tags, 'a list without exactly three members is accepted')
        vals = {}
        vty = self.unit.maptypes(I)[1]
        for name, kind in (('_items', 'Array'), ('_size', 'Int32'), ('_version', 'Int32')):
            k = mk('str', 'c', name)
            if not w.when(p_b(batom('has', m.a[1], k))):
                return self.must_fail(tags, 'a list without %s is accepted' % name)
            v = I.make_sym(w.st, vty, 'mapval', m.a[1], k)
            if w.vname(v) != kind:
                return self.must_fail(tags, 'a list whose %s is of another type is accepted' % name)
            vals[name] = I.field(w.st, w.unwrap(v), 0, I.variant_of(w.st, w.unwrap(v)))
        parts = I.parts(w.st, w.unwrap(vals['_items']))
        size = number(w, vals['_size'])
        self.seq(parts, I.seq_len(w.st, parts), size, what)

    # -------- sequences

    def seq(self, parts, n, size, what):
        """The first `size` of the n elements, all of them."""
        w, I = self.w, self.I
        tags = {'C26'}
        e = self.one_visit(tags, what)
        if e[1] != 'visit_seq':
            raise Differ(tags, '%s is presented with %s' % (what, e[1]))
        j = ZERO
        end = None
        for ev in self.evs[self.evs.index(e) + 1:]:
            if ev[0] == 'loop':
                rec = I.loops.get(ev[1])
                if rec is None or rec.key[0] != 'drive':
                    continue
                self.rounds(rec, parts, n, size, tags, what)
                j = ev[2]
            elif ev[0] == 'seed':
                self.element(ev, parts, j, n, size, tags, what)
                if not self.unit.seed_failed(w, ev):
                    j = addc(j, 1)
            elif ev[0] == 'seqend':
                if ev[1] == 'again':
                    raise Differ(tags, '%s goes on after its end' % what)
                end = ev[1]
                if end == 'none':
                    w.an.stats.obligations += 1
                    if not w.when(p_ge(sub(j, size))) and not w.when(p_ge(sub(j, n))):
                        raise Differ(tags, '%s ends before its last element' % what)
            elif ev[0] == 'seqres':
                r = ev[1]
        if end is None:
            raise Undecided('end of a sequence')
        if end == 'err':
            return self.must_fail(tags, 'an error of an element of %s is ignored' % what)
        w.an.stats.obligations += 1
        if I.variant_of(w.st, I.force(w.st, r)) == 1:
            return self.must_fail(tags, 'an error of the target is ignored for %s' % what)
        if w.when(p_eq(sub(j, size))):
            if self.failed():
                raise Differ(tags, '%s is rejected although all its elements are taken' % what)
            self.result(r, tags, what)
        elif not self.failed():
            raise Differ(tags, '%s is accepted although not all its elements are taken' % what)

    def element(self, ev, parts, j, n, size, tags, what):
        w, I = self.w, self.I
        w.an.stats.obligations += 1
        # with a negative size it fails in the end, whatever is presented before
        if not (w.when(p_ge(addc(sub(size, j), -1))) or not w.when(p_ge(size))) or not w.when(p_ge(addc(sub(n, j), -1))):
            raise Differ(tags, 'more elements than %s has are presented' % what)
        if not self.deserializer_of(ev[2], I.elem(w.st, parts, j)):
            raise Differ(tags | {'C23'}, 'an element of %s is not the next one' % what)

    def rounds(self, rec, parts, n, size, tags, what):
        an = self.w.an
        key = (rec.id, what)
        if key in an.loops_done:
            return
        an.loops_done[key] = rec
        an.stats.loops += 1
        k = of_atom(rec.k)
        for c in rec.cases:
            an.stats.cases += 1

            def turn(w2):
                me = Shown(self.unit, w2)
                ss = me.find('seed')
                if len(ss) != 1:
                    raise Differ(tags, 'a step of %s presents %d elements' % (what, len(ss)))
                me.element(ss[0], parts, k, n, size, tags, what)
            each(an, c.st, None, turn, c.events)


def taken(r):
    return of_atom(atom(0, ISIZE_MAX, 'sym', 'taken', r.a[0].a[2][-1]))


def at_position(it, base, g):
    if it is base:
        return mk('it', 'mapseq', base.a[1], g, *base.a[3:])
    return mk('it', it.a[0], at_position(it.a[1], base, g), *it.a[2:])


# ------------------------------------------------------------ serde: units

class SerdeUnit:
    def __init__(self, U):
        self.U = U
        self.valdes = self.value_deserializer()

    def value_deserializer(self):
        """The type that deserializes a borrowed value."""
        r = []
        for p, f in self.U.P.fns.items():
            if p.endswith('::deserialize_any') and f['inst'] is not None:
                ty = self.U.P.I[f['inst']]['locals'][1]
                t = self.U.T[ty]
                if t['k'] == 'adt' and not t['enum'] and len(t['variants'][0]['fields']) == 1:
                    u = self.U.T[t['variants'][0]['fields'][0]['ty']]
                    if u['k'] == 'ref' and self.U.T[u['to']].get('path', '').endswith('value::Value'):
                        r.append(t['path'])
        if len(r) != 1:
            raise Anchor('deserializer of a value: %d candidates' % len(r))
        return r[0]

    def maptypes(self, I):
        if not hasattr(self, '_mt'):
            o = [t for t in self.U.T if t['k'] == 'adt' and t['path'].endswith('value::object::Object') or
                 t['k'] == 'adt' and t['path'].endswith('::Object')]
            f = [f for f in o[0]['variants'][0]['fields'] if f['name'] == 'members']
            if not f:
                raise Undecided('an object has no members')
            a = [x for x in self.U.T[f[0]['ty']]['args'] if isinstance(x, int)]
            self._mt = (a[0], a[1])
        return self._mt

    def seed_failed(self, w, ev):
        return w.I.variant_of(w.st, w.I.force(w.st, ev[3])) == 1

    def methods(self, path):
        r = {}
        for p, f in self.U.P.fns.items():
            m = p.rsplit('::', 1)[-1]
            if m.startswith('deserialize_') and f['inst'] is not None and p.startswith('<' + path) and \
                    not p[len(path) + 1].isalnum():
                r[m] = f
        return r


MESSAGE_TYPE = 'RemotingMessage'
METHODS = ('any', 'bool', 'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'f32', 'f64', 'char', 'str',
           'string', 'bytes', 'byte_buf', 'option', 'unit', 'unit_struct', 'newtype_struct', 'seq', 'tuple', 'tuple_struct',
           'map', 'struct', 'enum', 'identifier', 'ignored_any')


def method_unit(U, which, method):
    su = SerdeUnit(U)
    if which == 'message':
        paths = [p for p in U.P.adts if p.endswith('::' + MESSAGE_TYPE)]
        if len(paths) != 1:
            raise Anchor('type of a message')
        path = paths[0]
    else:
        path = su.valdes
    fs = su.methods(path)
    f = fs.get('deserialize_' + method)
    if f is None:
        raise Anchor('%s::deserialize_%s' % (path, method))
    rep = Report('%s::deserialize_%s' % (which, method))
    I = U.interp(merge=False)
    d = Driver(U)
    d.install(I)
    st = new_state()
    body = U.P.I[f['inst']]
    args = [I.make_sym(st, body['locals'][i + 1], 'arg', i) for i in range(body['argc'])]
    outs = U.run(I, f, list(args), st)
    an = Analysis(U, I, f['path'], f['span'])
    mode = {'option': 'option', 'struct': 'struct'}.get(method, 'any')

    def spec(w):
        me = Shown(su, w)
        me.mode = mode
        x = w.unwrap(args[0])
        if which == 'message':
            name = w.vname(x)
            if name != 'Value':
                return me.must_fail({'C24'}, 'a message with a call or return is deserialized (%s)' % name)
            x = w.unwrap(w.I.field(w.st, x, 0, w.I.variant_of(w.st, x)))
        me.value(x, mode)

    for v, s in outs:
        each(an, s, v, spec)
    rep.add(an)
    rep.stats['outcomes'] = len(outs)
    rep.stats['unmodelled'] = sorted(I.unknown)
    panics(rep, U, I, f)
    return rep


def from_slice_unit(U):
    """The entry point: parse, then deserialize exactly what was parsed."""
    from .grammar import message_fn
    rep = Report('from_slice')
    fs = [f for b, x in U.by_bare.items() for f in x if b.split('::<')[0].endswith('from_slice') and f['inst'] is not None
          and '::' not in b.split('::<')[0]]
    if len(fs) != 1:
        raise Anchor('from_slice: %d candidates' % len(fs))
    f = fs[0]
    I = U.interp(merge=False)
    Driver(U).install(I)
    mf = message_fn(U)

    def parse(I, fr, st, args, info, t):
        st.serial += 1
        r = I.make_sym(st, t['dty'], 'parsed', I.fresh(st))
        st.ev('parse', I.deep(st, args[0]), r)
        return [(r, st)]

    I.cuts[mf['path']] = parse
    st = new_state()
    outs = U.run(I, f, [U.input()], st)
    an = Analysis(U, I, f['path'], f['span'])
    tags = {'C24'}

    def spec(w):
        ps = [e for _i, e in w.events() if e[0] == 'parse']
        ds = [e for _i, e in w.events() if e[0] == 'deser']
        w.an.stats.obligations += 1
        if len(ps) != 1 or len(ds) > 1:
            raise Undecided('%d messages parsed, %d deserialized' % (len(ps), len(ds)))
        x = ps[0][1]
        if x.tag != 'wire' or not w.when(p_eq(x.a[1])) or not w.when(p_eq(sub(x.a[2], w.end))):
            raise Differ(tags | {'C02'}, 'not the whole input is parsed')
        r = w.I.force(w.st, ps[0][2])
        me = Shown(None, w)
        if w.I.variant_of(w.st, r) == 1:
            return me.must_fail(tags, 'a message that cannot be parsed is deserialized')
        if not ds:
            raise Differ(tags, 'a message that can be parsed is not deserialized')
        if not w.same_node(ds[0][2], w.I.field(w.st, r, 0, 0)):
            raise Differ(tags, 'another message is deserialized than the one that was parsed')
        me.result(ds[0][3], tags, 'a message')

    for v, s in outs:
        each(an, s, v, spec)
    rep.add(an)
    rep.stats['outcomes'] = len(outs)
    rep.stats['unmodelled'] = sorted(I.unknown)
    panics(rep, U, I, f)
    return rep
