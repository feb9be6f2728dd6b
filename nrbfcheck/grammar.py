"""The grammar above the records: members, classes, arrays, calls and messages."""
from .dom import INF, ONE, ZERO, Node, add, addc, atom, batom, const, mk, of_atom, p_b, p_eq, p_ge, p_ne, p_not, scale, sub
from .interp import ISIZE_MAX, NONZERO, OPTION, RESULT, Split, Undecided, is_int, new_state
from .models import INS, str_eq
from .units import ERROR, Anchor
from .walk import Analysis, Differ, Reject, W
from .rules import Report, panics
from . import spec as S
from .spec import I as INT
from .spec import fld

CLASS = {1: 'ClassWithId', 2: 'SystemClassWithMembers', 3: 'ClassWithMembers', 4: 'SystemClassWithMembersAndTypes',
         5: 'ClassWithMembersAndTypes'}
ROLES = ('libs', 'classes', 'objects')


class SMap:
    """A map of the parser as the specification sees it."""

    def __init__(self, base, log=()):
        self.base, self.log = base, tuple(log)


class G(W):
    """A walk with the parser's maps and recursive nonterminals."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.maps = {}
        self.used = set()

    # ------------------------------------------------------------ bytes

    def peek(self):
        """Type byte of the next record, or None."""
        if not self.when(p_ge(addc(sub(self.end, self.pos), -1))):
            return None
        a = atom(0, 255, 'rd', self.base, self.pos, 1, 'u')
        self.link(a)
        return a

    def next_in(self, codes):
        """Code of the next record if it is one of these, else None."""
        a = self.peek()
        if a is None:
            return None
        m = 0
        for c in codes:
            m |= 1 << c
        f = self.st.facts
        d = f.get(a)
        if not d & m:
            return None
        if d & ~m or d & (d - 1):
            v = f.value(of_atom(a))
            if v is not None:
                return v if v in codes else None
            from .walk import sel_atoms
            if not self.lazy:
                for s in self.open_sels():
                    if a in sel_atoms(s):
                        self.split_sel(s)
            raise Split([[('dom', a, 1 << v)] for v in range(256) if (d >> v) & 1 and (m >> v) & 1]
                        + ([[('dom', a, d & ~m)]] if d & ~m else []))
        return d.bit_length() - 1

    def mismatch(self, what, tags=()):
        raise Reject({'C02', 'C20', 'C03'} | set(tags), what, 'mismatch')

    # ------------------------------------------------------------ maps

    def start(self, maps):
        for r, m in zip(ROLES, maps):
            m = self.I.res(self.st, m)
            if m.tag == 'ch':
                self.split_sel(m.a[0])
            if m.tag != 'map' or m.a[2]:
                raise Undecided('map of %s' % r)
            self.maps[r] = SMap(m.a[1])

    def key_lin(self, k):
        k = self.unwrap(k)
        if not is_int(k):
            raise Undecided('key')
        return k

    def has_atoms(self, base, key):
        f = self.st.facts
        r = []
        for a in list(f.bools):
            k = a.a[2]
            if k[0] == 'bool' and k[1] == 'has' and k[2] is base and f.value(sub(self.key_lin(k[3]), key)) == 0:
                r.append(a)
        return r

    def has(self, role, key):
        """The map has an entry for the key (a Lin); decides it."""
        m = self.maps[role]
        for op, k, v in reversed(m.log):
            if op != 'again' and self.when(p_eq(sub(k, key))):
                return op != 'rem'
        if isinstance(m.base, Node) and m.base.tag == 'empty':
            return False
        a = self.has_atoms(m.base, key)
        if not a:
            for s in self.open_sels():
                from .walk import sel_atoms
                for b in sel_atoms(s):
                    k = b.a[2]
                    if k[0] == 'bool' and k[1] == 'has' and k[2] is m.base:
                        self.split_sel(s)
            a = [batom('has', m.base, mk('adt', NONZERO, 0, (self.st.facts.norm(key),)))]
        return self.when(p_b(a[0]))

    def lookup(self, role, key):
        """Value in the map (after `has`), as a node; several names of it are possible."""
        m = self.maps[role]
        for op, k, v in reversed(m.log):
            if self.when(p_eq(sub(k, key))):
                return ('val', v)
        return ('base', m.base, key)

    def lookup_nodes(self, role, key):
        m = self.maps[role]
        ty = self.an.gr.value_type(role)
        out = []
        for op, k, v in reversed(m.log):
            if v is not None and v[0] == 'str' and self.when(p_eq(sub(k, key))):
                out.append(mk('str', 'w', v[1], self.st.facts.norm(v[2]), self.st.facts.norm(v[3])))
        for a in self.has_atoms(m.base, key):
            k = a.a[2][3]
            h = getattr(self.I, 'map_value', None)
            r = h(self.I, self.st, m.base, k) if h else None
            out.append(r if r is not None else self.I.make_sym(self.st, ty, 'mapval', m.base, k))
        return out

    def insert(self, role, key, val):
        m = self.maps[role]
        self.maps[role] = SMap(m.base, m.log + (('ins', key, val),))

    def ahead(self, role, op='may'):
        """The last entry is that of a record still to be read: the function may know it already."""
        m = self.maps[role]
        self.maps[role] = SMap(m.base, m.log[:-1] + ((op,) + m.log[-1][1:],))

    def compare_maps(self, actual, what, tags=()):
        """The maps of the parser are those of the specification."""
        for r, m in zip(ROLES, actual):
            m = self.I.res(self.st, m)
            if m.tag == 'ch':
                self.split_sel(m.a[0])
            if m.tag != 'map':
                raise Undecided('map %s' % r)
            self.compare_map(r, m, self.maps[r], what, set(tags))

    TAGS = {'libs': {'C18', 'C19'}, 'classes': {'C13', 'C18'}, 'objects': {'C17', 'C18', 'C22', 'C35'}}
    NAMES = {'libs': 'libraries', 'classes': 'class metadata', 'objects': 'objects'}

    def compare_map(self, r, m, sm, what, tags):
        T = self.TAGS[r] | tags
        n = self.NAMES[r]
        if m.a[1] is not sm.base:
            raise Differ(T | {'C20'}, '%s: the %s are not those left by what was read last' % (what, n))
        have = self.final(r, [self.entry(e) for e in m.a[2]], drop=r == 'objects')
        want = self.final(r, list(sm.log), drop=r == 'objects')
        for op, k, v in have:
            w = [x for x in want if self.when(p_eq(sub(x[1], k)))]
            if not w:
                raise Differ(T, '%s: an entry of the %s is %s that should not be' % (
                    what, n, 'made' if op == 'ins' else 'removed'))
            if op == 'ins':
                if w[0][0] == 'rem':
                    raise Differ(T, '%s: a removed entry of the %s' % (what, n))
                self.same_value(r, w[0][2], v, T, what)
            elif w[0][0] == 'ins':
                raise Differ(T, '%s: an entry of the %s is removed' % (what, n))
        for op, k, v in want:
            if op not in ('may', 'again') and not any(self.when(p_eq(sub(x[1], k))) for x in have):
                raise Differ(T, '%s: an entry of the %s is missing' % (what, n))

    def same_value(self, r, spec, v, T, what):
        self.same(spec, v, T, 'the entry of the %s' % self.NAMES[r])

    def entry(self, e):
        if e.tag != 'E':
            raise Undecided('map entries of a loop')
        op, k, v = e.a[0].a[0]
        return ('ins' if op is INS else 'rem', self.key_lin(k), v)

    def final(self, r, log, drop):
        """Effective entries: the last one for each key."""
        out = []
        for e in reversed(log):
            if drop and e[0] == 'rem':
                # looked up and consumed: that an object stays is another rule (C35)
                continue
            if not any(self.when(p_eq(sub(x[1], e[1]))) for x in out):
                out.append(e)
        return out

    # ------------------------------------------------------------ nonterminals

    def nt(self, kind, extra=None, tags=(), what=None):
        """What the nonterminal reads here; its value."""
        what = what or kind
        for i, e in self.events():
            if e[0] != 'nt' or e[1] != kind or i in self.used:
                continue
            if e[3] is not self.base or self.st.facts.value(sub(e[4], self.pos)) != 0:
                d = self.st.facts.decide(p_eq(sub(e[4], self.pos))) if e[3] is self.base else False
                if not d:
                    continue
            self.used.add(i)
            self.extra_ok(kind, e[6], extra, tags, what)
            self.compare_maps(e[10], 'in front of %s' % what)
            if e[2] != 'ok':
                raise Reject({'C21', 'C02'} | set(tags), 'reading %s fails' % what,
                             'inner')
            self.pos = e[5]
            for r, m in zip(ROLES, self.an.gr.nt_maps(e[7])):
                self.maps[r] = SMap(m)
            return e[9]
        if getattr(self, 'rejecting', False):
            raise Assume()
        raise Differ({'C02', 'C15', 'C20'} | set(tags), '%s is not read where it has to be' % what)

    def extra_ok(self, kind, have, want, tags, what):
        if kind != 'member':
            return
        if len(have) != 1:
            raise Undecided('arguments of the member parser')
        if want is not None:
            self.same(want, have[0], {'C14', 'C12'} | set(tags), 'the declared type of %s' % what)

    def peek_nt(self, kind):
        for i, e in self.events():
            if e[0] == 'nt' and e[1] == kind and i not in self.used and e[3] is self.base and \
                    self.st.facts.value(sub(e[4], self.pos)) == 0:
                return e
        return None


class Assume(Exception):
    """On a rejecting path: what was not read might have been fine."""


class Grammar:
    def __init__(self, U):
        self.U = U
        self.T = U.T

    def value_type(self, role):
        f = self.U.parser_fields()[self.U.roles()[role]]
        return [x for x in self.T[f['ty']]['args'] if isinstance(x, int)][1]

    def nt_maps(self, key):
        fs = self.U.parser_fields()
        return [mk('mapbase', fs[self.U.roles()[r]]['name'], 'nt', key, -1) for r in ROLES]

    def role_field(self, role):
        return self.U.parser_fields()[self.U.roles()[role]]['name']

    def member_variants(self):
        """Names of the alternatives of a member: a value, a number of nulls, a reference."""
        okt = self.U.ok_type(self.U.nt['member'][3])
        t = self.T[okt]
        if t['k'] != 'adt' or not t['enum'] or len(t['variants']) != 3:
            raise Undecided('type of a member')
        r = {}
        for v in t['variants']:
            if len(v['fields']) != 1:
                raise Undecided('variant %s of a member' % v['name'])
            k = self.T[v['fields'][0]['ty']]
            if k['k'] == 'adt' and k['path'].endswith('value::Value'):
                r['Value'] = v['name']
            elif k['k'] == 'int' or k['s'] in ('usize', 'u32', 'u64'):
                r['Null'] = v['name']
            else:
                r['Ref'] = v['name']
        if len(r) != 3:
            raise Undecided('variants of a member')
        return r


# ------------------------------------------------------------ specifications

def lib_opt(w, may=False):
    """An optional library."""
    if w.next_in((12,)) is None:
        return
    if may:
        w.mays.append(p_eq(ONE))
    w.pos = addc(w.pos, 1)
    lid = S.positive(w, 'the library ID', {'C19'})
    b, o = w.base, w.pos
    name = w.string({'C19'}, 'the library name')
    again = lib_dup(w, lid, name)
    w.insert('libs', lid, name)
    if again:
        # made again, or left as it is
        w.ahead('libs', 'again')


def lib_dup(w, lid, name):
    """The ID is new, or the entry was made from the same record."""
    if not w.has('libs', lid):
        return False
    f = w.st.facts
    new = mk('str', 'w', name[1], f.norm(name[2]), f.norm(name[3]))
    for a in list(f.bools):
        k = a.a[2]
        if k[0] == 'bool' and k[1] == 'ptreq' and f.bools[a]:
            xs = [x for x in k[2:4] if not (x.tag == 'str' and x.a[0] == 'w' and x.a[1] is name[1])]
            ys = [x for x in k[2:4] if x.tag == 'str' and x.a[0] == 'w' and x.a[1] is name[1]]
            if len(xs) == 1 and len(ys) == 1 and f.value(sub(ys[0].a[2], name[2])) == 0:
                for n in w.lookup_nodes('libs', lid):
                    if w.I.deep(w.st, w.unwrap(n)) is xs[0]:
                        return True
    raise Reject({'C18'}, 'the library ID is already taken')


def public(s):
    """A primitive as Value."""
    return s


def member(w, gr, typ):
    """One member record; `typ` is None or (binary type, its additional information as node)."""
    V = gr.member_variants()
    if typ is not None and typ[0] == 'Primitive':
        t = w.vname(typ[1])
        return ('enum', V['Value'], [S.prim_enum(w, t)])
    if typ is not None and typ[0] in ('Object', 'ObjectArray') and w.peek_nt('member') is not None:
        return ('node', w.nt('member', ('opt', None), {'C14'}, 'a member'))
    lib_opt(w)
    if typ is None:
        return member_any(w, gr, V)
    t, info = typ
    if t in ('Object', 'ObjectArray'):
        if w.peek_nt('member') is not None or getattr(w, 'rejecting', False):
            return ('node', w.nt('member', ('opt', None), {'C14'}, 'a member'))
        lib_opt(w, True)
        return member_any(w, gr, V)
    T = {'C14'}
    codes = {'String': (6, 9, 10, 13, 14), 'StringArray': (6, 9, 10, 13, 14), 'PrimitiveArray': (9, 10, 13, 14),
             'SystemClass': (1, 2, 3, 4, 5, 9, 10, 12, 13, 14), 'Class': (1, 2, 3, 4, 5, 9, 10, 12, 13, 14)}[t]
    if t == 'Class':
        lib = w.key_lin(class_info_field(w, info, 'library_id'))
        known = w.has('libs', lib)
        name = class_info_field(w, info, 'type_name')
        if not known:
            w.mays.append(p_eq(ONE))
    b = w.next_in(codes)
    if b is None:
        if t == 'Class' and not known:
            raise Reject(T | {'C19'}, 'the library of the declared class is unknown')
        w.mismatch('no record allowed for a member of type %s follows' % t, T)
    if b in CLASS or b == 12:
        if t == 'Class' and not known:
            raise Reject({'C14', 'C19'}, 'the library of the declared class is unknown')
        libs0 = w.maps['libs']
        v = w.nt('classes', None, T, 'a class')
        oid, obj = gr_object(w, v)
        in_place(w, gr, w.key_lin(oid), ('enum', 'Object', [('node', obj[2])]))
        if t == 'SystemClass':
            if not w.when(w_streq(w, obj[0], info)):
                raise Reject(T, 'the class is not the declared one')
            if w.vname(obj[1]) != 'None':
                raise Reject(T | {'C19'}, 'the class has a library, but the declared one has none')
        else:
            if not w.when(w_streq(w, obj[0], name)):
                raise Reject(T, 'the class is not the declared one')
            if w.vname(obj[1]) != 'Some':
                raise Reject(T | {'C19'}, 'the class has no library, but the declared one has')
            l = w.I.field(w.st, w.I.force(w.st, obj[1]), 0, 1)
            save, w.maps['libs'] = w.maps['libs'], libs0
            want = w.lookup_nodes('libs', lib)
            w.maps['libs'] = save
            ps = [w_streq(w, l, x) for x in want]
            if not ps:
                raise Undecided('declared library')
            ps = [p for p in ps if w.st.facts.decide(p) is not None] or ps
            if not w.when(ps[0]):
                raise Reject(T | {'C19'}, 'the library is not the declared one')
        return ('enum', V['Value'], [('enum', 'Object', [('node', obj[2])])])
    if b == 6:
        return string_member(w, gr, V)
    return ref_or_null(w, V, b)


def w_streq(w, a, b):
    a, b = w.unwrap(a), w.unwrap(b)
    r = str_eq(w.I, w.st, w.I.deep(w.st, a), w.I.deep(w.st, b))
    return r if isinstance(r, Node) else p_eq(ZERO if r else ONE)


def class_info_field(w, info, name):
    v = w.unwrap(info)
    if v.tag == 'sym':
        v = w.I.expand(w.st, v)
    names = w.an.field_names(v.a[0])
    if name not in names:
        raise Undecided('field %s' % name)
    return v.a[2][names.index(name)]


def gr_object(w, v):
    """ID, and (class, library, the object) of the value of the nonterminal classes."""
    v = w.I.res(w.st, v)
    a, b = w.I.field(w.st, v, 0), w.I.field(w.st, v, 1)
    o = w.I.force(w.st, b)
    if o.tag == 'sym':
        o = w.I.expand(w.st, o)
    names = w.an.field_names(o.a[0])
    if o.tag != 'adt' or 'class' not in names:
        raise Undecided('value of classes')
    return a, (o.a[2][names.index('class')], o.a[2][names.index('library')], b)


def in_place(w, gr, oid, value):
    """An object that is defined where it is used can be referred to as well."""
    if getattr(w, 'rejecting', False):
        return
    for i, e in w.events():
        if e[0] == 'map' and e[1] == 'insert' and e[2].tag == 'mapbase' and e[2].a[0] == gr.role_field('objects'):
            w.insert('objects', oid, value)
            return
    w.an.report({'C35'}, 'an object defined in place is not registered under its ID', w.st, w, fn='BinaryParser.objects')


def string_member(w, gr, V):
    w.pos = addc(w.pos, 1)
    oid = S.positive(w, 'the object ID')
    s = w.string({'C05', 'C14'}, 'the string')
    in_place(w, gr, oid, ('enum', 'String', [s]))
    return ('enum', V['Value'], [('enum', 'String', [s])])


def ref_or_null(w, V, b):
    if b == 9:
        return ('enum', V['Ref'], [S.fld(S.member_reference(w), 'C17')])
    if b == 10:
        S.object_null(w)
        return ('enum', V['Null'], [S.fld(INT(ONE), 'C15')])
    n = S.object_null_multiple_256(w) if b == 13 else S.object_null_multiple(w)
    return ('enum', V['Null'], [S.fld(n, 'C15')])


def member_any(w, gr, V):
    b = w.next_in((1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 13, 14))
    if b is None:
        w.mismatch('no member record follows', {'C14'})
    if b in CLASS or b == 12:
        v = w.nt('classes', None, {'C14', 'C12'}, 'a class')
        oid, obj = gr_object(w, v)
        in_place(w, gr, w.key_lin(oid), ('enum', 'Object', [('node', obj[2])]))
        return ('enum', V['Value'], [('enum', 'Object', [('node', obj[2])])])
    if b == 8:
        return ('enum', V['Value'], [S.member_primitive_typed(w)])
    if b == 6:
        return string_member(w, gr, V)
    return ref_or_null(w, V, b)


# ------------------------------------------------------------ records with unknown fields

def record(w, name, tags=()):
    """The record read here, by a parser that is verified on its own; its fields."""
    for i, e in w.events():
        if e[0] != 'rec' or e[1] != name or i in w.used:
            continue
        if e[3] is not w.base or w.st.facts.decide(p_eq(sub(e[4], w.pos))) is not True:
            continue
        w.used.add(i)
        if e[2] != 'ok':
            raise Reject({'C03', 'C21', 'C20'} | set(tags), 'the %s is invalid' % name, 'inner')
        w.pos = e[5]
        return e[6]
    if getattr(w, 'rejecting', False):
        raise Assume('%s' % name)
    raise Differ({'C03', 'C20'} | set(tags), 'the %s is not read' % name)


def struct(w, v):
    """A struct value with its fields."""
    while True:
        v = w.I.res(w.st, v)
        if v.tag in ('ref',):
            v = v.a[0]
        elif v.tag == 'mref':
            v = w.I.load(w.st, v.a[0], v.a[1])
        elif v.tag == 'sym':
            v = w.I.expand(w.st, v)
        elif v.tag == 'ch':
            v = w.unwrap(v)
        elif v.tag == 'adt':
            return v
        else:
            raise Undecided('struct %s' % v.tag)


def get(w, v, *path):
    for name in path:
        v = struct(w, v)
        names = w.an.field_names(v.a[0])
        if name not in names:
            raise Undecided('%s has no field %s' % (v.a[0], name))
        v = v.a[2][names.index(name)]
    return v


def vec_len(w, v):
    return w.I.length(w.st, v)


def elem_at(w, v, i):
    """Element of a vector, under the name the path knows it by."""
    parts = w.I.parts(w.st, v)
    if len(parts) == 1 and parts[0].tag == 'Sq' and parts[0].a[2] != -1:
        a, _n, ty = parts[0].a
        f = w.st.facts
        names = set()
        seen = set()

        def scan(k):
            if isinstance(k, Node):
                if k in seen:
                    return
                seen.add(k)
                k = k.a
            if not isinstance(k, tuple):
                return
            for j, x in enumerate(k):
                if x == 'elem' and isinstance(x, str) and j + 2 < len(k) and k[j + 1] is a:
                    names.add(k[j + 2])
                elif isinstance(x, (Node, tuple)):
                    scan(x)

        for x in list(f.dom) + list(f.bools):
            scan(x)
        for j in names:
            if f.value(sub(j, i)) == 0:
                return w.I.make_sym(w.st, ty, 'elem', a, j)
    return w.I.elem(w.st, parts, i)


# ------------------------------------------------------------ members

class Members:
    """The members a loop has collected: its vector, as it is after the loop."""

    def __init__(self, vec, n):
        self.vec, self.n = vec, n


def head(rec, path):
    from .loops import at_path
    return at_path(rec.tmpl.mem[path[0]], path[1:])


def after(rec, c, path):
    from .loops import at_path
    v = c.st.mem.get(path[0])
    if v is None:
        raise Undecided('end of an iteration')
    return at_path(v, path[1:])


def vec_holes(w, rec, elemname):
    """Vectors of a type that grow in the loop."""
    r = []
    for path, h in rec.holes.items():
        if h.kind not in ('seq', 'any'):
            continue
        v = head(rec, path)
        v = v if isinstance(v, Node) else None
        if v is None or v.tag != 'vec':
            continue
        if vec_type(w, rec, path, v) == elemname:
            r.append(path)
    return r


def vec_type(w, rec, path, v):
    for p in v.a[0]:
        if p.tag == 'Sq' and p.a[2] != -1:
            return tyname(w, p.a[2])
    for c in rec.cases:
        x = w.I.res(c.st, after(rec, c, path))
        for p in x.a[0] if x.tag == 'vec' else ():
            if p.tag in ('E', 'Rep'):
                y = w.I.res(c.st, p.a[0])
                if y.tag == 'adt':
                    return y.a[0].rsplit('::', 1)[1]
                if y.tag == 'sym':
                    return tyname(w, y.a[1])
    return None


def tyname(w, ty):
    t = w.I.T[ty]
    return t['path'].rsplit('::', 1)[1] if t['k'] == 'adt' else t['s']


def loop_maps(w, rec):
    """The maps at the head of the loop; those at its beginning are compared."""
    w.compare_maps(maps_in(w.an.gr, w.I, rec.entry), 'at the beginning of a loop')
    return maps_in(w.an.gr, w.I, rec.tmpl)


def maps_in(gr, I, st):
    """The parser's maps in a state."""
    c = gr.U.parser_cell
    if c is None:
        raise Undecided('the parser is not found')
    v = I.force(st, I.load(st, c[0], c[1]))
    return [v.a[2][gr.U.roles()[r]] for r in ROLES]


def head_maps(w, ms):
    w.maps = {}
    w.start(ms)


def case_maps(w, c):
    return maps_in(w.an.gr, w.I, c.st)


def mult(w, gr, v):
    """How many members a member record stands for, and the name of its alternative."""
    V = gr.member_variants()
    n = w.vname(v)
    if n != V['Null']:
        return ONE, n
    x = w.unwrap(w.I.field(w.st, w.I.expand(w.st, w.I.force(w.st, v), w.I.variant_of(w.st, w.I.force(w.st, v))), 0,
                           w.I.variant_of(w.st, w.I.force(w.st, v))))
    if not is_int(x):
        raise Undecided('number of nulls')
    # verified where members are read
    if not w.st.facts.assume(p_ge(addc(x, -1))):
        raise Split([])
    return x, n


def enter(w, what):
    L = w.find_loop()
    if L is None:
        return None
    rec, path, off0, k = L
    if k is not of_atom(rec.k) and k is not rec.k:
        raise Undecided('iteration of %s' % what)
    return rec, path, off0


class Case:
    """The comparison of an iteration: run as specification of the case."""


def run_case(w, rec, path, c, body, tags, what, assume=()):
    s = c.st.copy()
    for p in assume:
        if not s.facts.assume(p):
            return
    an = w.an
    an.stats.cases += 1
    new = c.vals.get(path)
    if new is None:
        raise Undecided('position after an iteration of %s' % what)

    def spec(w2):
        w2.__class__ = G
        w2.maps, w2.used = {}, set()
        body(w2)
        return None

    an.accept_path(s, head(rec, path), spec, None, tags, what, log=c.events, newpos=new)


def members(w, gr, n, extra, tags, what='the members', given=()):
    """n members; a null record counts as often as it says. `extra(walk, index)` is their declared type."""
    tags = frozenset(tags) | {'C15', 'C12'}
    if w.st.facts.value(n) == 0:
        return Members(mk('vec', ()), ZERO)
    E = enter(w, what)
    if E is None:
        if w.when(p_eq(n)):
            return Members(mk('vec', ()), ZERO)
        if getattr(w, 'rejecting', False):
            raise Assume(what)
        raise Undecided('no loop for %s' % what)
    rec, path, off0 = E
    ms = loop_maps(w, rec)
    vs = vec_holes(w, rec, tyname(w, gr.U.ok_type(gr.U.nt['member'][3])))
    if len(vs) != 1:
        raise Undecided('vector of %s' % what)
    vpath = vs[0]
    mu = counter(w, gr, rec, path, vpath, n)
    mk_ = mu(rec.tmpl)
    key = ('members', rec.id)
    if key not in w.an.loops_done:
        w.an.loops_done[key] = rec
        w.an.stats.loops += 1
        # the first iteration starts at 0
        m0 = w.st.facts.value(sub(mu(rec.entry), ZERO))
        if m0 != 0:
            raise Undecided('counter of %s' % what)
        for c in rec.cases:
            def body(w2, c=c):
                head_maps(w2, ms)
                v = w2.nt('member', extra and ('check', lambda w3, x, t, h: extra(w3, mk_, x, t, h)), tags, 'a member')
                m, alt = mult(w2, gr, v)
                if not w2.when(p_ge(sub(sub(n, mk_), m))):
                    raise Reject({'C15'}, 'a null record stands for more members than are left')
                if not w2.when(p_eq(sub(sub(mu(c.st), mk_), m))):
                    raise Differ({'C15', 'C12'}, 'a member is not counted as often as it occurs')
                appended(w2, gr, rec, c, vpath, v, m, alt)
                w2.compare_maps(case_maps(w2, c), 'after a member')
            run_case(w, rec, path, c, body, tags, 'a member of %s' % what, [p_ge(sub(n, mk_))] + list(given))
    # after the loop, or in an iteration that leaves it
    if not w.st.facts.assume(p_ge(sub(n, mk_))):
        raise Split([])
    head_maps(w, ms)
    w.pos = head(rec, path)
    if w.when(p_ge(sub(mk_, n))):
        return Members(head(rec, vpath), n)
    v = w.nt('member', extra and ('check', lambda w3, x, t, h: extra(w3, mk_, x, t, h)), tags, 'a member')
    m, alt = mult(w, gr, v)
    if not w.when(p_ge(sub(sub(n, mk_), m))):
        raise Reject({'C15'}, 'a null record stands for more members than are left')
    if getattr(w, 'rejecting', False):
        raise Assume('more members')
    raise Differ({'C15', 'C12'}, 'reading members stops before their number is reached')


def counter(w, gr, rec, path, vpath, n):
    """The number of members read: a function of the state at the head or end of an iteration."""
    from .loops import at_path
    from .dom import neg

    def value(p):
        def f(st):
            v = st.mem.get(p[0])
            if v is None:
                return None
            x = at_path(v, p[1:])
            if isinstance(x, Node) and x.tag in ('vec', 'slice', 'adt', 'sym', 'ch', 'mref'):
                return st.facts.norm(w.I.length(st, x))
            return x if is_int(x) else None
        return f

    cands = []
    for p, h in rec.holes.items():
        if p == path or h.kind == 'map' or h.kind == 'bool':
            continue
        f = value(p)
        if p == vpath or h.kind in ('cnt', 'phi'):
            cands.append(f)
            if h.kind in ('cnt', 'phi'):
                # counting down
                e = f(rec.entry)
                cands.append(lambda st, f=f, e=e: sub(e, f(st)) if f(st) is not None else None)
    best, score = None, -1
    for f in cands:
        a = f(rec.tmpl)
        e = f(rec.entry)
        if a is None or e is None or w.st.facts.value(e) != 0:
            continue
        sc = 0
        for c in rec.cases:
            b = f(c.st)
            if b is None:
                continue
            ev = [x for x in flat(c) if x[0] == 'nt' and x[1] == 'member' and x[2] == 'ok']
            if len(ev) != 1:
                continue
            sc += case_score(w, gr, c, ev[0][9], sub(b, a))
        if sc > score:
            best, score = f, sc
    if best is None:
        raise Undecided('counter of the members')
    return best


def flat(c):
    return [e for e in c.events if e[0] != 'either']


def case_score(w, gr, c, v, d):
    """Whether the counter advances as it should in a case (a guess, which is verified later)."""
    try:
        s = c.st.copy()
        if not (isinstance(v, Node)):
            return 0
        x = w.I.force(s, v)
        i = w.I.variant_of(s, x)
        names = w.variants(x)
        if names[i] != gr.member_variants()['Null']:
            return 2 if s.facts.value(addc(d, -1)) == 0 else 0
        n = w.I.field(s, w.I.expand(s, x, i), 0, i)
        if not s.facts.assume(p_ge(addc(n, -1))):
            return 2
        return 2 if s.facts.decide(p_eq(sub(d, n))) is True else 0
    except Split:
        return 1 if c.st.facts.value(d) is None else 0


def parts_after(w, rec, c, vpath):
    """What an iteration appends."""
    v0 = head(rec, vpath)
    v1 = w.I.res(w.st, after(rec, c, vpath))
    if not (isinstance(v1, Node) and v1.tag == 'vec') or v1.a[0][:len(v0.a[0])] != v0.a[0]:
        raise Undecided('vector after an iteration')
    return v1.a[0][len(v0.a[0]):]


def is_null_value(w, x, valuename):
    """The value Null, perhaps inside the alternative for values."""
    x = w.unwrap(x)
    if not (isinstance(x, Node) and x.tag in ('adt', 'sym')):
        return False
    if x.tag == 'adt' and x.a[0].endswith('value::Value'):
        return w.vname(x) == 'Null'
    n = w.vname(x)
    if n == valuename:
        if x.tag == 'sym':
            x = w.I.expand(w.st, x, w.I.variant_of(w.st, x))
        if len(x.a[2]) == 1:
            return is_null_value(w, x.a[2][0], None)
    return n == 'Null' and not (x.tag == 'adt' and x.a[2])


def appended(w, gr, rec, c, vpath, v, m, alt):
    V = gr.member_variants()
    ps = parts_after(w, rec, c, vpath)
    T = {'C12', 'C15'}
    if len(ps) == 1 and ps[0].tag == 'E' and w.same_node(v, ps[0].a[0]):
        return
    if alt != V['Null']:
        raise Differ(T, 'a member is not kept as it was read')
    total = ZERO
    for p in ps:
        if p.tag in ('E', 'Rep'):
            if not is_null_value(w, p.a[0], V['Value']):
                raise Differ(T, 'a null member becomes another value')
        elif p.tag == 'Lp':
            r2 = w.I.loops.get(p.a[0])
            for c2 in r2.cases:
                for q in c2.app.get(p.a[1], ()):
                    if q.tag not in ('E', 'Rep') or not is_null_value(w, q.a[0], V['Value']):
                        raise Differ(T, 'a null member becomes another value')
        else:
            raise Undecided('values of a null record')
        total = add(total, w.I.part_len(p))
    if not w.when(p_eq(sub(total, m))):
        raise Differ(T, 'a null record does not yield as many nulls as it says')


def resolved(w, gr, ml, tags, what='the members'):
    """The members with references replaced by the objects."""
    tags = frozenset(tags) | {'C17', 'C35'}
    if ml.vec.tag == 'vec' and not ml.vec.a[0]:
        return Members(ml.vec, ZERO)
    E = enter(w, 'the references of %s' % what)
    if E is None:
        if w.when(p_eq(w.I.length(w.st, ml.vec))):
            return Members(mk('vec', ()), ml.n)
        if getattr(w, 'rejecting', False):
            raise Assume(what)
        raise Undecided('no loop for the references')
    rec, path, off0 = E
    ms = loop_maps(w, rec)
    vs = vec_holes(w, rec, 'Value')
    if len(vs) != 1:
        raise Undecided('vector of resolved members')
    vpath = vs[0]
    kk = of_atom(rec.k)
    L = w.I.length(w.st, ml.vec)
    parts = ml.vec.a[0]
    key = ('resolved', rec.id)
    if key not in w.an.loops_done:
        w.an.loops_done[key] = rec
        w.an.stats.loops += 1
        for c in rec.cases:
            def body(w2, c=c):
                head_maps(w2, ms)
                x, m, alt = resolve_one(w2, gr, parts, kk, tags, w)
                resolved_value(w2, gr, rec, c, vpath, x, m, alt)
                w2.compare_maps(case_maps(w2, c), 'after a reference')
            run_case(w, rec, path, c, body, tags, 'resolving %s' % what, [p_ge(addc(sub(L, kk), -1))])
    head_maps(w, ms)
    w.pos = head(rec, path)
    if w.when(p_ge(sub(kk, L))):
        return Members(head(rec, vpath), ml.n)
    resolve_one(w, gr, parts, kk, tags, w)
    if getattr(w, 'rejecting', False):
        raise Assume('more references')
    raise Differ(tags, 'not every member is resolved')


def resolve_one(w, gr, parts, i, tags, outer):
    """(value, count, alternative) for the member at an index."""
    V = gr.member_variants()
    v = w.I.elem(w.st, parts, i)
    m, alt = mult(w, gr, v)
    x = w.I.force(w.st, v)
    if x.tag == 'sym':
        x = w.I.expand(w.st, x, w.I.variant_of(w.st, x))
    x = x.a[2][0]
    if alt == V['Value']:
        return [x], ONE, alt
    if alt == V['Null']:
        return [], m, alt
    rid = w.key_lin(x)
    if not w.has('objects', rid):
        got = w.nt('referenceable', None, tags, 'a referenced object')
        if not w.when(p_eq(sub(w.key_lin(got), rid))):
            raise Reject({'C17', 'C35'}, 'the object at the place of a reference has another ID')
        if not w.has('objects', rid):
            raise Reject({'C17', 'C35'}, 'the object of a reference is missing')
    vals = w.lookup_nodes('objects', rid)
    drop_rule(w, gr)
    return vals, ONE, alt


def drop_rule(w, gr):
    """An object stays available for further references."""
    for i, e in w.events():
        if e[0] == 'map' and e[1] == 'remove' and e[2].tag == 'mapbase' and e[2].a[0] == gr.role_field('objects') \
                and e[4] is not None:
            w.an.report({'C35'}, 'an object is taken out of the objects when it is referenced first', w.st, w,
                        fn='BinaryParser.objects')
            return


def resolved_value(w, gr, rec, c, vpath, xs, m, alt):
    V = gr.member_variants()
    ps = parts_after(w, rec, c, vpath)
    if alt == V['Null']:
        total = ZERO
        for p in ps:
            if p.tag in ('E', 'Rep'):
                if not is_null_value(w, p.a[0], None):
                    raise Differ({'C12', 'C15'}, 'a null member becomes another value')
            elif p.tag != 'Lp':
                raise Undecided('values of a null record')
            total = add(total, w.I.part_len(p))
        if not w.when(p_eq(sub(total, m))):
            raise Differ({'C12', 'C15'}, 'a null record does not yield as many nulls as it says')
        return
    if len(ps) != 1 or ps[0].tag != 'E':
        raise Differ({'C12', 'C17'}, 'a member does not yield exactly one value')
    if not any(w.same_node(x, ps[0].a[0]) for x in xs):
        raise Differ({'C12'} if alt == V['Value'] else {'C17', 'C12', 'C35'},
                     'a %s yields another value' % ('member' if alt == V['Value'] else 'reference'))


# ------------------------------------------------------------ classes

KINDS = {2: 'SystemClassWithMembers', 3: 'ClassWithMembers', 4: 'SystemClassWithMembersAndTypes',
         5: 'ClassWithMembersAndTypes'}


def classes(w, gr):
    lib_opt(w)
    b = w.next_in((1, 2, 3, 4, 5))
    if b is None:
        w.mismatch('no class record follows')
    if b == 1:
        w.pos = addc(w.pos, 1)
        oid = S.positive(w, 'the object ID', {'C13'})
        mid = S.positive(w, 'the metadata ID', {'C13'})
        if not w.has('classes', mid):
            raise Reject({'C13'}, 'there is no class with the metadata ID')
        meta = w.lookup_nodes('classes', mid)
        if not meta:
            raise Undecided('metadata')
        meta = w.I.force(w.st, meta[0])
        kind = w.vname(meta)
        if kind not in KINDS.values():
            raise Undecided('class metadata %s' % kind)
        if meta.tag == 'sym':
            meta = w.I.expand(w.st, meta, w.I.variant_of(w.st, meta))
        meta = meta.a[2][0]
        if w.has('classes', oid):
            raise Reject({'C18'}, 'the object ID is already the one of a record with class metadata')
    else:
        kind = KINDS[b]
        meta = record(w, kind)
        oid = w.key_lin(get(w, meta, 'class_info', 'object_id'))
        if w.has('classes', oid):
            raise Reject({'C18', 'C13'}, 'the object ID is already taken')
        w.insert('classes', oid, ('enum', kind, [('node', meta)]))
    info = get(w, meta, 'class_info')
    libval = None
    if not kind.startswith('System'):
        lid = w.key_lin(get(w, meta, 'library_id'))
        if not w.has('libs', lid):
            raise Reject({'C19'}, 'the library of the class is unknown')
        libval = w.lookup_nodes('libs', lid)
    names = get(w, info, 'member_names')
    n = vec_len(w, names)
    given = []
    if kind.endswith('Types'):
        types = get(w, meta, 'member_type_info', 'binary_type_enums')
        infos = get(w, meta, 'member_type_info', 'additional_infos')
        # verified where the record is read
        for v in (types, infos):
            given.append(p_eq(sub(vec_len(w, v), n)))
            if not w.st.facts.assume(given[-1]):
                raise Split([])

        def extra(w2, i, x, tags, what):
            t = elem_at(w2, types, i)
            a = elem_at(w2, infos, i)
            w2.same(('opt', ('tup', [('node', t), ('node', a)])), x, {'C14'} | set(tags), what)
    else:
        def extra(w2, i, x, tags, what):
            w2.same(('opt', None), x, {'C14'} | set(tags), what)
    ml = members(w, gr, n, extra, {'C14'}, given=given)
    rl = resolved(w, gr, ml, ())

    def obj_members(w2, v, tags, what):
        zipped(w2, gr, v, names, rl, n)

    def lib(w2, v, tags, what):
        x = w2.unwrap(v)
        if libval is None:
            w2.same(('opt', None), v, tags, what)
            return
        if x.tag == 'sym':
            x = w2.I.expand(w2.st, x)
        if x.a[1] == 0:
            raise Differ({'C19', 'C12'}, 'the object has no library')
        if not any(w2.same_node(y, x.a[2][0]) for y in libval):
            raise Differ({'C19', 'C12'}, 'the library of the object is not the one of its class')

    return ('tup', [INT(oid), ('rec', {
        'class': (('node', get(w, info, 'name')), frozenset({'C12', 'C13'})),
        'library': (('check', lib), frozenset({'C19', 'C12'})),
        'members': (('check', obj_members), frozenset({'C12', 'C13'}))})])


def zipped(w, gr, v, names, rl, n):
    """The map from the names to the values."""
    v = w.I.res(w.st, v)
    T = {'C12'}
    if v.tag != 'map' or not (isinstance(v.a[1], Node) and v.a[1].tag == 'empty'):
        raise Undecided('map of members')
    log = v.a[2]
    # the names are as many as the values, by the number of members
    if not log:
        if not w.when(p_eq(n)):
            raise Differ(T, 'members are missing')
        return
    if len(log) != 1 or log[0].tag != 'Lp':
        raise Undecided('entries of the map of members')
    p = log[0]
    rec = w.I.loops[p.a[0]]
    rlen = w.I.length(w.st, rl.vec)
    if not w.st.facts.assume(p_eq(sub(rlen, n))):
        raise Split([])
    if w.st.facts.value(p.a[2]) != 0:
        raise Undecided('entries of the map of members')
    if not w.when(p_eq(sub(p.a[3], n))):
        raise Differ(T, 'not every member is kept')
    kk = of_atom(rec.k)
    if len(rec.cases) == 0:
        raise Undecided('entries of the map of members')
    for c in rec.cases:
        e = c.app.get(p.a[1])
        if e is None or len(e) != 1 or e[0].tag != 'E':
            raise Differ(T, 'a member is left out, or kept more than once')
        op, key, val = e[0].a[0].a[0]
        if op is not INS:
            raise Undecided('entries of the map of members')
        s = c.st.copy()

        def body(w2):
            if not w2.same_node(w2.I.elem(w2.st, w2.I.parts(w2.st, names), kk), key):
                raise Differ(T, 'a member is kept under another name')
            if not w2.same_node(w2.I.elem(w2.st, rl.vec.a[0], kk), val):
                raise Differ(T, 'a member is kept with another value')
        probe(w, s, body, T, 'the members')


def probe(w, st, body, tags, what):
    """Run body(walk) for every way of deciding it in a state."""
    an = w.an

    def f(s):
        w2 = G(an, s, ZERO, None, [])
        try:
            body(w2)
        except Differ as e:
            x = an.feasible(s, w2)
            if x is not None:
                an.report(e.tags, '%s: %s' % (what, e.what), x, w2)
    an.explore(st, f)


# ------------------------------------------------------------ referenceable objects

ARRAYS = (7, 15, 16, 17)


def referenceable(w, gr):
    """One class instance, array or string, which is kept under its ID."""
    b = w.next_in((1, 2, 3, 4, 5, 6, 7, 12, 15, 16, 17))
    if b is None:
        w.mismatch('no referenceable record follows')
    e = w.peek_nt('classes')
    if b == 12 and not (e is not None and e[2] in ('ok', 'err1', 'err2')):
        lib_opt(w)
        b = w.next_in((1, 2, 3, 4, 5) + ARRAYS)
        if b is None:
            w.mismatch('no class or array follows the library')
    if b in CLASS or b == 12:
        oid, obj = gr_object(w, w.nt('classes', None, {'C12', 'C21'}, 'a class'))
        oid, val = w.key_lin(oid), ('enum', 'Object', [('node', obj[2])])
    elif b == 6:
        w.pos = addc(w.pos, 1)
        oid = S.positive(w, 'the object ID')
        val = ('enum', 'String', [w.string({'C05'}, 'the string')])
    else:
        oid, vec = array(w, gr, b)
        val = ('enum', 'Array', [vec])
    if w.has('objects', oid):
        raise Reject({'C18'}, 'the object ID is already taken')
    w.insert('objects', oid, val)
    return INT(oid)


def array(w, gr, b):
    """An array record with its elements: (ID, specification of the vector)."""
    if b == 7:
        return binary_array(w, gr)
    oid, r = simple_array(w, gr, b)
    return oid, kept(r) if isinstance(r, Members) else r


def object_array(w, gr):
    return simple_array(w, gr, 16)


def simple_array(w, gr, b):
    w.pos = addc(w.pos, 1)
    info = S.array_info(w)[1]
    oid, n = info['object_id'][0][1], info['length'][0][1]
    if b == 15:
        at = w.pos
        tab = {k: v for k, v in S.PRIMITIVE.items() if k not in (17, 18)}
        S.table(w, tab, {'C05'}, 'the primitive type code')

        def elem(w2, i):
            pos, w2.pos = w2.pos, at
            t = S.table(w2, tab, {'C05'}, 'the primitive type code')
            w2.pos = pos
            return S.prim_enum(w2, t)
        return oid, w.rep(n, elem, {'C15', 'C05'}, 'the elements')

    def extra(w2, i, x, tags, what):
        x = w2.unwrap(x)
        if b == 16:
            w2.same(('opt', None), x, {'C14'} | set(tags), what)
            return
        if x.tag == 'sym':
            x = w2.I.expand(w2.st, x)
        if x.a[1] == 0:
            raise Differ({'C14'} | set(tags), 'elements of a string array can be of any type')
        y = w2.I.force(w2.st, x.a[2][0])
        n = w2.vname(w2.I.field(w2.st, y, 0))
        if n not in ('String', 'StringArray'):
            raise Differ({'C14'} | set(tags), 'elements of a string array are read as %s' % n)
    ml = members(w, gr, n, extra, {'C14'}, 'the elements')
    return oid, resolved(w, gr, ml, (), 'the elements')


def kept(ml, tags=('C15',)):
    def f(w, v, tags2, what):
        if not w.same_node(ml.vec, v):
            raise Differ(set(tags2) | set(tags), 'the array does not consist of the elements that were read')
    return ('check', f)


def binary_array(w, gr):
    rec = record(w, 'BinaryArray', {'C16', 'C15'})
    oid = w.key_lin(get(w, rec, 'object_id'))
    lengths = get(w, rec, 'lengths')
    t, info = get(w, rec, 'type_enum'), get(w, rec, 'additional_type_info')
    n = product(w, lengths)

    def extra(w2, i, x, tags, what):
        w2.same(('opt', ('tup', [('node', t), ('node', info)])), x, {'C14', 'C16'} | set(tags), what)
    ml = members(w, gr, n, extra, {'C14', 'C16'}, 'the elements')
    ml = resolved(w, gr, ml, (), 'the elements')
    return oid, rows(w, ml, lengths)


def product(w, lengths):
    """The number of elements, as the function computes it."""
    T = {'C16', 'C15'}
    L = vec_len(w, lengths)
    c = w.st.facts.value(L)
    if c == 1:
        return w.key_lin(elem_at(w, lengths, ZERO))
    for i, e in w.events():
        if i < w.at or e[0] != 'loop':
            continue
        rec = w.I.loops.get(e[1])
        for path, h in rec.holes.items() if rec else ():
            if h.kind not in ('cnt', 'phi') or wire_pos(rec, path, w):
                continue
            x0 = entry_of(rec, path)
            if not is_int(x0) or x0.a[1] or not over(w, rec, lengths):
                continue
            if h.kind == 'cnt' and x0.a[0] != 1:
                continue
            # an accumulator
            acc = head(rec, path)
            kk = of_atom(rec.k)
            if x0.a[0] != 1:
                raise Differ(T, 'the number of elements is not the product of the lengths')
            from .interp import is_int as _ii
            for c in rec.cases:
                new = c.vals.get(path)
                f = c.st.facts
                ok = False
                for idx in (kk, addc(sub(L, kk), -1)):
                    w2 = G(w.an, c.st.copy(), ZERO, None, [])
                    x = w2.key_lin(elem_at(w2, lengths, idx))
                    if _ii(new) and f.value(sub(f.norm(new), f.norm(w.I.mul(c.st, acc, x)))) == 0:
                        ok = True
                    if _ii(new) and f.value(f.norm(new)) == 0 and (f.value(x) == 0 or f.value(acc) == 0):
                        ok = True
                if not ok:
                    raise Differ(T, 'the number of elements is not the product of the lengths')
            w.at = i + 1
            if w.when(p_ge(sub(kk, L))):
                return w.st.facts.norm(acc)
            x = w.key_lin(elem_at(w, lengths, kk))
            m = w.I.mul(w.st, acc, x)
            if w.when(p_ge(addc(m, -(1 << 63)))):
                raise Reject({'C16', 'C15'}, 'the number of elements cannot be represented')
            if getattr(w, 'rejecting', False):
                raise Differ(T, 'an array with a representable number of elements is rejected')
            raise Differ(T, 'not all lengths count for the number of elements')
    if getattr(w, 'rejecting', False):
        raise Assume('lengths')
    raise Undecided('number of elements')


def wire_pos(rec, path, w):
    from .walk import entry_at
    if not path or path[-1] != 1:
        return False
    par = entry_at(rec, path[:-1])
    return isinstance(par, Node) and par.tag == 'wire'


def entry_of(rec, path):
    from .loops import at_path
    v = rec.entry.mem.get(path[0])
    return None if v is None else at_path(v, path[1:])


def over(w, rec, lengths):
    """The loop takes the lengths one by one."""
    a = w.I.parts(w.st, lengths)
    return len(a) == 1 and any(mentions(x, a[0].a[0], rec.k) for c in rec.cases
                               for x in list(c.vals.values()) + list(c.st.facts.dom))


def mentions(x, a, k):
    """An element of the sequence at an index that depends on the iteration."""
    seen, work = set(), [x]
    while work:
        v = work.pop()
        if isinstance(v, Node):
            if v in seen:
                continue
            seen.add(v)
            v = v.a
        if isinstance(v, tuple):
            for j, y in enumerate(v):
                if y == 'elem' and isinstance(y, str) and j + 2 < len(v) and v[j + 1] is a and contains(v[j + 2], k):
                    return True
                if isinstance(y, (Node, tuple)):
                    work.append(y)
    return False


def contains(x, k):
    work, seen = [x], set()
    while work:
        v = work.pop()
        if v is k:
            return True
        if isinstance(v, Node):
            if v in seen:
                continue
            seen.add(v)
            v = v.a
        if isinstance(v, tuple):
            work.extend(y for y in v if isinstance(y, (Node, tuple)))
    return False


def rows(w, ml, lengths):
    """The elements in rows, by all lengths but the first, from the last one on."""
    T = {'C16'}
    L = vec_len(w, lengths)
    at = [None]
    for i, e in w.events():
        if i < w.at or e[0] != 'loop':
            continue
        rec = w.I.loops.get(e[1])
        for path, h in rec.holes.items() if rec else ():
            if h.kind not in ('seq', 'any'):
                continue
            v = entry_of(rec, path)
            if isinstance(v, Node) and w.I.deep(w.st, v) is w.I.deep(w.st, ml.vec):
                at[0] = (rec, path)
        if at[0]:
            w.at = i + 1
            break
    if at[0] is None:
        def flat_(w2, v, tags, what):
            if not w2.when(p_ge(sub(ONE, L))):
                if w2.same_node(ml.vec, v):
                    raise Differ(T, 'an array of several dimensions is not divided into rows')
                raise Undecided('rows')
            if not w2.same_node(ml.vec, v):
                raise Differ(T | {'C15'}, 'the array does not consist of the elements that were read')
        return ('check', flat_)
    rec, path = at[0]
    key = ('rows', rec.id)
    if key not in w.an.loops_done:
        w.an.loops_done[key] = rec
        w.an.stats.loops += 1
        for c in rec.cases:
            probe(w, c.st.copy(), lambda w2, c=c: row_case(w2, rec, path, c, lengths, L), T, 'the rows')

    def done(w2, v, tags, what):
        if not w2.same_node(head(rec, path), v):
            raise Differ(T | {'C15'}, 'the array does not consist of its rows')
        kk = of_atom(rec.k)
        if not w2.when(p_eq(sub(kk, addc(L, -1)))):
            raise Differ(T, 'the elements are not divided by all lengths but the first')
    return ('check', done)


def row_case(w, rec, path, c, lengths, L):
    """The elements are divided into rows of the next length."""
    T = {'C16'}
    X = head(rec, path)
    kk = of_atom(rec.k)
    new = w.I.res(w.st, after(rec, c, path))
    idx = addc(sub(L, kk), -1)
    l = w.key_lin(elem_at(w, lengths, idx))
    inner = None
    for e in c.events:
        if e[0] != 'loop':
            continue
        r2 = w.I.loops.get(e[1])
        for p2, h2 in r2.holes.items() if r2 else ():
            if h2.kind in ('seq', 'any') and head(r2, p2) is new:
                inner = (r2, p2)
    if inner is None:
        raise Undecided('rows of a dimension')
    r2, p2 = inner
    v0 = entry_of(r2, p2)
    if not (v0.tag == 'vec' and not v0.a[0]):
        raise Undecided('rows of a dimension')
    xs = X.a[0]
    n = w.I.length(w.st, X)
    # the position in the elements
    pos = None
    for p3, h3 in r2.holes.items():
        if h3.kind in ('phi', 'cnt') and p3 != p2:
            x0 = entry_of(r2, p3)
            if is_int(x0) and w.st.facts.value(x0) == 0:
                pos = p3
    if pos is None:
        raise Undecided('position in the elements')
    p = head(r2, pos)
    for c2 in r2.cases:
        def body(w2, c2=c2):
            ps = parts_after(w2, r2, c2, p2)
            if len(ps) != 1 or ps[0].tag != 'E':
                raise Undecided('row')
            v = w2.I.res(w2.st, ps[0].a[0])
            if w2.vname(v) != 'Array':
                raise Differ(T, 'a row is not an array')
            row = w2.I.res(w2.st, v.a[2][0])
            if row.tag != 'vec' or len(row.a[0]) != 1 or row.a[0][0].tag != 'Sl':
                raise Undecided('row')
            parts, off, ln = row.a[0][0].a
            if tuple(parts) != tuple(xs):
                raise Undecided('elements of a row')
            if not w2.when(p_eq(sub(off, p))):
                raise Differ(T, 'a row does not start where the last one ended')
            l2 = w2.key_lin(elem_at(w2, lengths, idx))
            if not w2.when(p_eq(sub(ln, l2))):
                # the last row; the number of elements is a multiple of the length
                if not w2.when(p_eq(sub(add(p, ln), n))) or not w2.when(p_ge(sub(l2, ln))):
                    raise Differ(T, 'a row does not have the length of its dimension')
                return
            if not w2.when(p_eq(sub(sub(c2.vals[pos], p), ln))):
                raise Differ(T, 'elements between rows are left out or repeated')
        s = c2.st.copy()
        probe(w, s, body, T, 'a row')
    # at the end of the inner loop
    if not w.when(p_eq(l)):
        if not w.when(p_eq(sub(p, n))):
            raise Differ(T, 'elements are left over after the last row')


# ------------------------------------------------------------ units

class GAnalysis(Analysis):
    """Analysis with the parser's state."""

    def __init__(self, gr, I, fn, span):
        super().__init__(gr.U, I, fn, span)
        self.gr = gr


def final_maps(gr, I, s):
    return maps_in(gr, I, s)


def starts(U, st, start):
    """The states of the beginning: (kind of start, code)."""
    b, o, e = U.base, ZERO, U.end
    if start[0] == 'byte':
        s = st.copy()
        return [s] if U.byte_in(s, b, o, e, (start[1],)) else []
    codes = start[1]
    if start[0] == 'lib':
        s = st.copy()
        lib = U.lib_valid(s, b, o, e)
        return [s] if lib is not None and U.byte_in(s, b, lib[2], e, (codes,)) else []
    if start[0] == 'other':
        out = U.byte_not_in(st, b, o, e, tuple(codes) + (12,)) + U.lib_invalid(st, b, o, e)
        s = st.copy()
        lib = U.lib_valid(s, b, o, e)
        if lib is not None:
            out += U.byte_not_in(s, b, lib[2], e, tuple(start[2]))
        return out
    raise KeyError(start)


def nt_unit(U, kind, start, spec, name, tags, merge=False):
    """A nonterminal without arguments of its own, from one kind of beginning."""
    gr = Grammar(U)
    rep = Report(name)
    path, f, argt, rett = U.nt[kind]
    I = U.interp(merge=merge, cut_records=True)
    if len(argt) != 2:
        raise Undecided('arguments of %s' % path)
    st0 = new_state()
    m = U.parser_state(I, st0)
    maps0 = U.parser_maps(I, st0, m)
    for st in starts(U, st0, start):
        outs = U.run(I, f, [m, U.input()], st)
        check_unit(rep, gr, I, f, outs, lambda w: spec(w, gr), maps0, tags, name)
    panics(rep, U, I, f, kind)
    return rep


def referenceable_unit(U, start):
    return nt_unit(U, 'referenceable', start, referenceable, 'a referenceable record', {'C15', 'C20', 'C12'},
                   merge=start[1] == 15)


def classes_unit(U, start):
    return nt_unit(U, 'classes', start, classes, 'a class', {'C12', 'C13', 'C20'})


# ------------------------------------------------------------ calls

CALL = {'call': (21, 'BinaryMethodCall', ('method_name', 'type_name', 'call_context'),
                 {'args': 'ArgsInline', 'call_context': 'ContextInline'}),
        'return': (22, 'BinaryMethodReturn', ('return_value', 'call_context'),
                   {'args': 'ArgsInline', 'call_context': 'ContextInline', 'return_value': 'ReturnValueInline'})}


def call(w, gr, kind, root, newpos):
    """A method call or return with the array that may follow it."""
    code, name, fields, present = CALL[kind]
    T = {'C11'}
    lib_opt(w)
    if w.next_in((code,)) is None:
        w.mismatch('no %s follows' % name)
    rec = record(w, name, {'C11', 'C22'})
    f = w.unwrap(get(w, rec, 'message_enum'))
    if not is_int(f) or len(f.a[1]) != 1:
        raise Undecided('message flags')
    f = f.a[1][0][0]
    # what the record guarantees
    for x, flag in present.items():
        if (w.I.variant_of(w.st, get(w, rec, x)) == 1) != S.has(w, f, flag):
            raise Split([])
    kinds = [n for n in ('NoArgs', 'ArgsInline', 'ArgsIsArray', 'ArgsInArray') if S.has(w, f, n)]
    if len(kinds) > 1:
        raise Split([])
    after = w.pos
    took = newpos is None or not w.when(p_eq(sub(newpos, after)))
    arr = call_array(w, gr, root, took)
    if kinds == ['ArgsIsArray']:
        if arr is None:
            raise Reject(T, 'the call array with the arguments is missing')
        args = ('opt', kept(arr, T))
    elif kinds == ['ArgsInArray']:
        if arr is None:
            raise Reject(T, 'the call array with the arguments is missing')
        if w.st.facts.value(arr.n) == 0 or not w.when(p_ge(addc(arr.n, -1))):
            raise Reject(T, 'the call array is empty, but has to contain the arguments')
        if not arr.vec.a[0]:
            raise Undecided('call array')
        x = w.I.elem(w.st, arr.vec.a[0], ZERO)
        if w.vname(x) != 'Array':
            raise Reject(T, 'the first element of the call array is not the array of arguments')
        args = ('opt', ('node', w.I.field(w.st, w.I.force(w.st, w.unwrap(x)), 0, w.I.variant_of(w.st, w.unwrap(x)))))
    elif kinds == ['ArgsInline']:
        args = ('opt', converted(w, payload(w, get(w, rec, 'args'))))
    else:
        args = ('opt', None)
    want = {'args': (args, frozenset(T))}
    for x in fields:
        v = get(w, rec, x)
        if x in present:
            v = ('opt', value_check(w, payload(w, v)) if x == 'return_value' else ('node', payload(w, v))) \
                if x in present and S.has(w, f, present[x]) else ('opt', None)
        else:
            v = ('node', v)
        want[x] = (v, frozenset(T | {'C22'}))
    return ('rec', want)


def payload(w, v):
    v = w.I.force(w.st, v)
    if v.tag == 'sym':
        v = w.I.expand(w.st, v, 1)
    return v.a[2][0]


def conversion_units(U):
    """The conversions of values with a type code."""
    rep = Report('the conversion of a value with a type code')
    fs = U.conversions()
    if not fs:
        raise Anchor('no conversion of values with a type code')
    for _p, f in fs:
        I = U.interp(merge=False)
        st = new_state()
        x = I.make_sym(st, U.P.I[f['inst']]['locals'][1], 'arg')
        an = Analysis(U, I, f['path'], f['span'])
        for v, s in U.run(I, f, [x], st):
            an.accept_path(s, ZERO, lambda w: value_of(w, x), v, {'C05', 'C11'}, 'a value with a type code')
        rep.add(an)
        panics(rep, U, I, f)
    return rep


def value_check(w, src):
    def f(w2, v, tags, what):
        y = w2.unwrap(v)
        if y.tag == 'sym' and y.a[0].a[2][:2] == ('sym', 'conv') and w2.same_node(y.a[0].a[2][2], src):
            return
        w2.same(value_of(w2, src), v, tags, what)
    return ('check', f)


def value_of(w, v):
    """A value with a type code as Value: the alternative of the same name with the same content."""
    n = w.vname(v)
    x = w.I.force(w.st, w.unwrap(v))
    i = w.I.variant_of(w.st, x)
    if x.tag == 'sym':
        x = w.I.expand(w.st, x, i)
    return ('enum', n, [('node', y) for y in x.a[2]])


def converted(w, vs):
    vs = w.unwrap(vs)
    parts = w.I.parts(w.st, vs)

    def elem(w2, i):
        return value_check(w2, elem_at(w2, vs, i))
    return ('seq', w.I.seq_len(w.st, parts), elem)


def call_array(w, gr, root, took):
    """The array of a call, if one follows."""
    at = w.pos
    b = w.next_in((12, 16))
    if b == 12:
        try:
            lib_opt(w)
        except Reject as e:
            if took or 'C18' in e.tags:
                raise
            # no library: what follows is rejected
            w.lost = True
            w.pos = at
            return None
        b = w.next_in((16,))
        if b is None:
            # the library belongs to the next record
            w.pos = at
            w.ahead('libs')
    if b is None:
        return None
    if not took:
        # an array that cannot be read: what follows is rejected
        r0 = getattr(w, 'rejecting', False)
        w.rejecting = True
        w.lost = True
        try:
            arr_ = array(w, gr, 16)
        except (Reject, Assume):
            w.pos = at
            return None
        finally:
            w.rejecting = r0
        raise Differ({'C11', 'C21', 'C20'}, 'the call array is not read')
    oid, ml = object_array(w, gr)
    x = w.I.force(w.st, root)
    if w.I.variant_of(w.st, x) != 1 or not w.when(p_eq(sub(w.key_lin(payload(w, x)), oid))):
        raise Reject({'C11'}, 'the ID of the call array is not the root ID')
    return ml


def call_unit(U, kind, start):
    gr = Grammar(U)
    rep = Report('a method %s' % kind)
    path, f, argt, rett = U.call_fn(kind)
    I = U.interp(merge=False, cut_records=True)
    for p, _f in U.conversions():
        I.cuts[p] = U.cut_conversion()
    st0 = new_state()
    m = U.parser_state(I, st0)
    root = I.make_sym(st0, argt[2], 'root')
    maps0 = U.parser_maps(I, st0, m)
    for st in starts(U, st0, start):
        outs = U.run(I, f, [m, U.input(), root], st)
        check_unit(rep, gr, I, f, outs, lambda w: call(w, gr, kind, root, w.newpos), maps0,
                   {'C11', 'C22', 'C20'}, 'a method %s' % kind)
    panics(rep, U, I, f)
    return rep


# ------------------------------------------------------------ messages

RECORDS_AHEAD = (1, 2, 3, 4, 5, 6, 7, 15, 16, 17)


def other_record(w, kind):
    """The nonterminal was tried here, but another record follows; a library in front of that may be known already."""
    e = w.peek_nt(kind)
    if e is None or e[2] == 'ok':
        return None
    w.used.add([i for i, x in w.events() if x is e][0])
    w.compare_maps(e[10], 'in front of another record')
    if e[2].startswith('err'):
        raise Reject({'C21', 'C02'}, 'reading the %s fails' % KIND[kind], 'inner')
    ahead_lib(w)
    return e


KIND = {'referenceable': 'record', 'call': 'method call', 'return': 'method return'}


def ahead_lib(w):
    at = w.pos
    m = w.maps['libs']
    if m.log and m.log[-1][0] == 'may':
        return
    if w.next_in((12,)) is None:
        return
    try:
        lib_opt(w)
    except Reject as e:
        if 'C18' in e.tags:
            raise
    else:
        if w.maps['libs'].log[-1][0] != 'again':
            w.ahead('libs')
    w.pos = at


def records(w, gr):
    """Any number of records that define objects."""
    at = w.at
    E = enter(w, 'the records')
    if E is not None:
        rec, path, off0 = E
        ms = loop_maps(w, rec)
        key = ('records', rec.id)
        if key not in w.an.loops_done:
            w.an.loops_done[key] = rec
            w.an.stats.loops += 1
            for c in rec.cases:
                def body(w2, c=c):
                    head_maps(w2, ms)
                    w2.nt('referenceable', None, {'C02'}, 'a record')
                    w2.compare_maps(maps_in(gr, w2.I, c.st), 'after a record')
                run_case(w, rec, path, c, body, {'C02'}, 'the records')
        head_maps(w, ms)
        w.pos = head(rec, path)
    else:
        w.at = at
    n = 0
    while True:
        e = w.peek_nt('referenceable')
        if e is None or e[2] != 'ok':
            break
        w.nt('referenceable', None, {'C02'}, 'a record')
        n += 1
        if n > 20:
            raise Undecided('no loop for the records')
    if e is not None:
        other_record(w, 'referenceable')


def no_record(w, what, codes=RECORDS_AHEAD):
    """No record that belongs here is left out."""
    if w.next_in(codes) is not None:
        if getattr(w, 'rejecting', False):
            raise Assume()
        raise Differ({'C02', 'C20'}, '%s is not read' % what)


def message(w, gr):
    """A message, to the end of the input."""
    T = {'C02'}
    _rec, h = S.serialization_header(w)
    root = h['root_id'][0][1]
    records(w, gr)
    no_record(w, 'a record in front of the call')
    res = None
    for kind in ('call', 'return'):
        e = w.peek_nt(kind)
        if e is None:
            no_record(w, 'a %s' % KIND[kind], (CALL[kind][0],))
            continue
        want = ('opt', root)
        if len(e[6]) != 1:
            raise Undecided('arguments of a call')
        w.same(want, e[6][0], {'C11', 'C22'}, 'the root ID a call array must have')
        if e[2] != 'ok':
            other_record(w, kind)
            continue
        res = (kind, w.nt(kind, None, {'C11', 'C02'}, 'a ' + KIND[kind]))
        break
    records(w, gr)
    no_record(w, 'a record behind the call')
    if w.next_in((11,)) is None:
        raise Reject({'C02', 'C34'}, 'the message end is missing')
    w.pos = addc(w.pos, 1)
    if not w.when(p_eq(sub(w.end, w.pos))):
        raise Reject(T, 'there are bytes behind the message end')
    if res is not None:
        return ('enum', {'call': 'MethodCall', 'return': 'MethodReturn'}[res[0]], [('node', res[1])])
    if root is None:
        return ('enum', 'Value', [('enum', 'Null', [])])
    r = root[1]
    if not w.has('objects', r):
        raise Reject({'C22'}, 'the root object is missing')
    vals = w.lookup_nodes('objects', r)

    def root_value(w2, v, tags, what):
        if not any(w2.same_node(x, v) for x in vals):
            raise Differ({'C22'}, 'the message is not its root object')
    return ('enum', 'Value', [('check', root_value)])


def message_fn(U):
    r = [f for b, fs in U.by_bare.items() for f in fs if b.endswith('RemotingMessage::parse') and f['inst'] is not None]
    if len(r) != 1:
        raise Anchor('RemotingMessage::parse: %d candidates' % len(r))
    return r[0]


def message_unit(U):
    gr = Grammar(U)
    rep = Report('a message')
    f = message_fn(U)
    nt, first, after = dict(U.nt), U.FIRST, U.AFTER_LIB
    try:
        for k in CALL:
            U.nt[k] = U.call_fn(k)
        more = {k: (CALL[k][0],) for k in CALL}
        U.FIRST, U.AFTER_LIB = dict(first, **more), dict(after, **more)
        U.parser_cell = None
        I = U.interp(merge=False, cut_records=True)
        st = new_state()
        outs = U.run(I, f, [U.input()], st)
        an = GAnalysis(gr, I, f['path'], f['span'])
        empty = [mk('map', 'empty', mk('empty'), ())] * 3
        for v, s in outs:
            v = I.deep(s, v)
            if v.tag != 'adt' or v.a[0] != RESULT:
                raise Undecided('outcome of a message')
            sp = wrap(gr, I, lambda w: message(w, gr), empty, None)
            if v.a[1] == 0:
                an.accept_path(s, ZERO, sp, v.a[2][0], frozenset({'C02', 'C22'}), 'a message')
            else:
                an.reject_path(s, ZERO, sp, v.a[2][0], frozenset({'C02', 'C22'}), 'a message')
        rep.add(an)
        rep.stats['outcomes'] = len(outs)
        rep.stats['unmodelled'] = sorted(I.unknown)
        panics(rep, U, I, f)
    finally:
        U.nt, U.FIRST, U.AFTER_LIB = nt, first, after
    return rep


def wrap(gr, I, spec, maps0, fin, left=None, newpos=None):
    """A specification over W as one over G, with the maps compared at the end."""

    def run(w):
        w.__class__ = G
        w.maps, w.used = {}, set()
        w.lost = False
        w.newpos = newpos
        w.start(maps0)
        try:
            r = spec(w)
        except Assume:
            w.assumed = True
            return None
        except Reject as e:
            if e.kind == 'mismatch' and left is not None:
                w.compare_maps(left, 'when another record follows', {'C20'})
            raise
        if fin is not None and not w.lost:
            w.compare_maps(fin, 'at the end')
        return r
    return run


def check_unit(rep, gr, I, f, outs, spec, maps0, tags, what, first=None):
    an = GAnalysis(gr, I, f['path'], f['span'])
    for v, s in outs:
        v = I.deep(s, v)
        if v.tag != 'adt' or v.a[0] != RESULT:
            raise Undecided('outcome of %s' % what)
        if v.a[1] == 0:
            t = I.res(s, v.a[2][0])
            x = I.res(s, t.a[0][0])
            if x.tag != 'wire' or x.a[0] is not an.base:
                raise Undecided('rest of %s' % what)
            fin = final_maps(gr, I, s)
            an.accept_path(s, ZERO, wrap(gr, I, spec, maps0, fin, None, x.a[1]), t.a[0][1], frozenset(tags), what, newpos=x.a[1])
        else:
            e = I.res(s, v.a[2][0])
            variant = e.a[1] if e.tag == 'adt' else None
            left = final_maps(gr, I, s) if variant == ERROR else None
            an.reject_path(s, ZERO, wrap(gr, I, spec, maps0, None, left), e, frozenset(tags), what, variant=variant)
    rep.add(an)
    rep.stats['outcomes'] = rep.stats.get('outcomes', 0) + len(outs)
    rep.stats['unmodelled'] = sorted(I.unknown)


MERGE = False
COMBOS = ('None', 'Primitive', 'String', 'Object', 'SystemClass', 'Class', 'ObjectArray', 'StringArray',
          'PrimitiveArray')


def member_unit(U, combo):
    gr = Grammar(U)
    rep = Report('member %s' % combo)
    path, f, argt, rett = U.nt['member']
    I = U.interp(merge=MERGE)
    st = new_state()
    if len(argt) != 3:
        raise Undecided('arguments of %s' % path)
    T = U.T
    o = T[argt[2]]
    tt = T[[x for x in o.get('args', []) if isinstance(x, int)][0]] if o.get('path') == OPTION else None
    if tt is None or tt['k'] != 'tuple' or len(tt['fields']) != 2:
        raise Undecided('type argument of %s' % path)
    arg, typ = none_or_type(U, I, st, tt, combo)
    maps = U.parser_state(I, st)
    maps0 = U.parser_maps(I, st, maps)
    outs = U.run(I, f, [maps, U.input(), arg], st)
    check_unit(rep, gr, I, f, outs, lambda w: member(w, gr, typ), maps0,
               {'C14', 'C12', 'C05', 'C20'} if combo != 'None' else {'C12', 'C20', 'C05'}, 'a member (type %s)' % combo)
    panics(rep, U, I, f, 'member' if combo != 'None' else 'untyped member')
    return rep


def none_or_type(U, I, st, tt, combo):
    T = U.T
    if combo == 'None':
        return mk('adt', OPTION, 0, ()), None
    bt = T[tt['fields'][0]]
    names = [v['name'] for v in bt['variants']]
    if combo not in names:
        raise Undecided('no binary type %s' % combo)
    b = mk('adt', bt['path'], names.index(combo), ())
    oi = T[tt['fields'][1]]
    ity = [x for x in oi['args'] if isinstance(x, int)][0]
    isref = T[ity]['k'] == 'ref'
    if isref:
        ity = T[ity]['to']
    info = {'Primitive': 'Primitive', 'PrimitiveArray': 'Primitive', 'SystemClass': 'SystemClass', 'Class': 'Class'}.get(combo)
    if info is None:
        return mk('adt', OPTION, 1, (mk('tup', (b, mk('adt', OPTION, 0, ()))),)), (combo, None)
    it = T[ity]
    names = [v['name'] for v in it['variants']]
    if info not in names:
        raise Undecided('no additional information %s' % info)
    v = names.index(info)
    x = I.make_sym(st, it['variants'][v]['fields'][0]['ty'], 'arginfo')
    if combo == 'Primitive':
        pt = T[it['variants'][v]['fields'][0]['ty']]
        d = I.discr_atom(x.a[0], len(pt['variants']))
        m = 0
        for i, pv in enumerate(pt['variants']):
            if pv['name'] not in ('Null', 'String'):
                m |= 1 << i
        st.facts._set(d, m)
    n = mk('adt', it['path'], v, (x,))
    if isref:
        n = mk('ref', n)
    return mk('adt', OPTION, 1, (mk('tup', (b, mk('adt', OPTION, 1, (n,)))),)), (combo, x)
