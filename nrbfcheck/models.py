"""Models of library items: std containers, iterators, strings and the leaf parsers of nom.

A model is called as f(I, fr, st, args, info, t) and returns a value, a list of (value, state), or
NotImplemented to have the body interpreted. A model may raise Split only before it changes `st`.
"""
import re

from .dom import (as_signed, INF, ONE, ZERO, add, addc, atom, batom, cval, const, from_bits, is_const, mk, neg, of_atom, p_b, p_eq,
                  p_ge, p_ne, p_not, popcount, scale, show, sub, trange, op_atom, Node, bitvec)
from . import strings
from .interp import (ISIZE_MAX, NOMERR, NONE, NONZERO, OPTION, RESULT, UNIT, Split, Undecided, adt, err, is_bool,
                     is_int, nonzero, ok, refine, some, tup)

TABLE = {}
PATTERNS = []


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def multi(I, st, f):
    """Run f on the state, splitting the state as often as f asks for it."""
    work = [st]
    out = []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 4000:
            raise Undecided('too many cases')
        try:
            r = f(s.copy())
        except Split as sp:
            for ref in sp.refs:
                s2 = s.copy()
                if refine(s2, ref):
                    work.append(s2)
            continue
        out.extend(r if isinstance(r, list) else [r])
    return out


def target(I, st, v):
    """Value behind a shared or mutable reference (or the fat pointer itself)."""
    return I.deref(st, v)


def self_loc(I, st, v):
    v = I.force(st, v)
    if v.tag != 'mref':
        raise Undecided('not a mutable place: %s' % show(v))
    return v.a[0], v.a[1]


# ------------------------------------------------------------------ results of nom

def dty(I, t):
    return I.T[t['dty']]


def nom_error_value(I, ety, inp, kind):
    """A value of the error type of a leaf parser."""
    if ety is not None:
        t = I.T[ety]
        if t['k'] == 'adt' and t['path'] == 'nom::error::Error':
            return adt(t['path'], 0, inp, mk('opq', 'kind', kind))
        if t['k'] == 'tuple':
            if not t['fields']:
                return UNIT
            return tup(inp, mk('opq', 'kind', kind))
        if t['k'] == 'adt':
            return mk('opq', 'error', kind, inp)
    return mk('opq', 'error', kind, inp)


def err_type(I, resty):
    """E of Result<(I, O), nom::Err<E>>."""
    t = I.T[resty]
    if t['k'] != 'adt':
        return None
    a = I.ty_args(t)
    if t['path'] == RESULT and len(a) == 2:
        e = I.T[a[1]]
        if e['k'] == 'adt' and e['path'] == NOMERR:
            return I.ty_args(e)[0]
    return None


def out_type(I, resty):
    t = I.T[resty]
    if t['k'] == 'adt' and t['path'] == RESULT:
        o = I.T[I.ty_args(t)[0]]
        if o['k'] == 'tuple' and len(o['fields']) == 2:
            return o['fields'][1]
    return None


NOM_ERROR, NOM_FAILURE = 1, 2


def nom_err(e, variant=NOM_ERROR):
    return err(adt(NOMERR, variant, e))


def rd(base, off, n, signed):
    u = atom(0, (1 << 8 * n) - 1, 'rd', base, off, n, 'u')
    return as_signed(u, 8 * n) if signed else of_atom(u)


def rd_be(base, off, n, signed):
    if n == 1:
        return rd(base, off, n, signed)
    lo, hi = trange(8 * n, signed)
    return of_atom(atom(lo, hi, 'rdbe', base, off, n, 'i' if signed else 'u'))


NUM = {'u8': (1, False), 'u16': (2, False), 'u32': (4, False), 'u64': (8, False), 'u128': (16, False),
       'i8': (1, True), 'i16': (2, True), 'i32': (4, True), 'i64': (8, True), 'i128': (16, True)}


@pattern(r'^nom::number::(?:complete::)?(?:le_|be_)?(?:[iu]\d+|f32|f64)$')
def nom_number(I, fr, st, args, info, t):
    m = re.match(r'^nom::number::(complete::)?(?:(le|be)_)?([iu]\d+|f32|f64)$', info['path'])
    comp, endian, ty = m.groups()
    if not comp or len(args) != 1:
        return NotImplemented
    w = I.force(st, args[0])
    if w.tag != 'wire':
        return NotImplemented
    base, off, end = w.a
    if ty in ('f32', 'f64'):
        n = int(ty[1:]) // 8
        v = mk('flt', 'rd' if endian != 'be' else 'rdbe', base, off, n)
    else:
        n, signed = NUM[ty]
        v = rd_be(base, off, n, signed) if endian == 'be' else rd(base, off, n, signed)
    if I.decide(st, p_ge(addc(sub(end, off), -n))):
        return ok(tup(mk('wire', base, addc(off, n), end), v))
    return nom_err(nom_error_value(I, err_type(I, t['dty']), w, 'Eof'))


@pattern(r'^std::num::(?:.*::)?from_([lbn])e_bytes$')
def from_le_bytes(I, fr, st, args, info, t):
    ty = dty(I, t)
    if ty['k'] == 'float':
        n, signed = ty['bits'] // 8 if 'bits' in ty else (4 if ty['s'] == 'f32' else 8), None
    else:
        rg = I.P.ty_range(t['dty'])
        n, signed = rg[0] // 8, rg[1]
    a = I.force(st, args[0])
    if a.tag != 'arr':
        return NotImplemented
    bs = [I.force(st, x) for x in a.a[0]]
    be = info['path'].endswith('be_bytes')
    if be:
        bs.reverse()
    r = whole_read(bs)
    if ty['k'] == 'float':
        if r is not None and not be:
            return mk('flt', 'rd', r[0], r[1], n)
        return mk('flt', 'bits', tuple(bs))
    if r is not None and len(bs) == n:
        return rd_be(r[0], sub(r[1], const(0)), n, signed) if be and n > 1 else rd(r[0], r[1], n, signed)
    bits = []
    for b in bs:
        v = bitvec(b, 8)
        if v is None:
            return NotImplemented
        bits += v
    return from_bits(bits, signed)


def whole_read(bs):
    """(base, off) if the values are consecutive input bytes (least significant first)."""
    base = off = None
    for i, b in enumerate(bs):
        if not is_int(b) or b.a[0] or len(b.a[1]) != 1 or b.a[1][0][1] != 1:
            return None
        k = b.a[1][0][0].a[2]
        if k[0] != 'rd' or k[3] != 1:
            return None
        if base is None:
            base, off = k[1], k[2]
        elif k[1] is not base or k[2] is not addc(off, i):
            return None
    return (base, off) if base is not None else None


@pattern(r'^std::(?:f32|f64)::(?:.*::)?from_bits$')
def float_from_bits(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    n = 4 if 'f32' in info['path'] else 8
    if is_int(v) and not v.a[0] and len(v.a[1]) == 1 and v.a[1][0][1] == 1:
        k = v.a[1][0][0].a[2]
        if k[0] in ('rd', 'rdbe') and k[3] == n:
            return mk('flt', k[0], k[1], k[2], n)
    return mk('flt', 'bits', v)


@pattern(r'^std::(?:f32|f64)::(?:.*::)?is_(nan|infinite|finite)$')
def float_class(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    name = info['path'].rsplit('is_', 1)[1]
    nan = lambda: I.decide(st, p_b(batom('flt.nan', v)))
    inf = lambda: I.decide(st, p_b(batom('flt.infinite', v)))
    if name == 'nan':
        return p_b(batom('flt.nan', v)) if v.tag != 'ch' else nan()
    r = not nan() and inf() if name == 'infinite' else not nan() and not inf()
    return bool(r)


@pattern(r'^nom::bits::complete::take::\{closure#0\}$')
def bits_take(I, fr, st, args, info, t):
    env = I.force(st, args[0])
    if env.tag == 'mref':
        env = I.load(st, env.a[0], env.a[1])
    elif env.tag == 'ref':
        env = env.a[0]
    env = I.force(st, env)
    tpl = I.force(st, args[1])
    # arguments may arrive as one tuple ((input, offset)) or wrapped once more
    while tpl.tag == 'tup' and len(tpl.a[0]) == 1:
        tpl = I.force(st, tpl.a[0][0])
    if tpl.tag != 'tup' or len(tpl.a[0]) != 2:
        return NotImplemented
    w, bo = I.force(st, tpl.a[0][0]), I.force(st, tpl.a[0][1])
    n = None
    for u in env.a[1]:
        u = I.force(st, u)
        if is_int(u):
            n = st.facts.value(u)
    o = st.facts.value(bo)
    if n is None or o is None or w.tag != 'wire':
        return NotImplemented
    resty = ret_ty(I, info, t)
    base, off, end = w.a
    if n == 0:
        return ok(tup(tpl, ZERO))
    need = (n + o + 7) // 8
    if not I.decide(st, p_ge(addc(sub(end, off), -need))):
        return nom_err(nom_error_value(I, err_type(I, resty) if resty is not None else None, tpl, 'Eof'))
    bits = []
    for i in range(n):
        p = o + i
        a = atom(0, 255, 'rd', base, addc(off, p // 8), 1, 'u')
        bits.append((a, 7 - p % 8))
    bits.reverse()
    v = from_bits(bits + [0], False)
    p = o + n
    return ok(tup(tup(mk('wire', base, addc(off, p // 8), end), const(p % 8)), v))


def ret_ty(I, info, t):
    inst = info.get('inst')
    if inst is not None and I.I[inst] is not None:
        return I.I[inst]['locals'][0]
    return t.get('dty') if t else None


def seq_like(v):
    return isinstance(v, Node) and v.tag in ('wire', 'str', 'slice', 'vec', 'arr')


def elem_at(I, st, v, i):
    if v.tag == 'wire':
        return I.byte(v.a[0], add(v.a[1], i))
    if v.tag == 'str':
        if v.a[0] == 'c':
            c = cval(i)
            return const(v.a[1].encode()[c])
        return I.byte(v.a[1], add(v.a[2], i))
    return I.force(st, I.elem(st, I.parts(st, v), i))


@pattern(r'^<&(?:\'\w+ )?\[u8\] as nom::Input>::(\w+)$')
def nom_input(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    w = I.force(st, target(I, st, args[0]))
    if w.tag == 'ref':
        w = I.force(st, w.a[0])
    if name == 'input_len':
        return I.length(st, w)
    if name in ('take', 'take_from', 'take_split'):
        n = I.force(st, args[1])
        ln = I.length(st, w)
        if not I.decide(st, p_ge(sub(ln, n))):
            I.panic(fr, st, t, 'slice index out of range')
            return []
        a = I.subslice(st, w, ZERO, n)
        b = I.subslice(st, w, n, ln)
        return a if name == 'take' else b if name == 'take_from' else tup(b, a)
    if name == 'slice_index':
        n = I.force(st, args[1])
        ln = I.length(st, w)
        if I.decide(st, p_ge(sub(ln, n))):
            return ok(n)
        return NotImplemented
    return NotImplemented


@pattern(r'as nom::Compare<.*>>::compare$|^nom::Compare::compare$')
def nom_compare(I, fr, st, args, info, t):
    if not info['path'].startswith('<'):
        return NotImplemented
    a = I.force(st, target(I, st, args[0]))
    if a.tag == 'ref':
        a = I.force(st, a.a[0])
    b = I.force(st, args[1])
    if b.tag == 'ref':
        b = I.force(st, b.a[0])
    n = cval(I.length(st, b))
    if n is None:
        return NotImplemented
    la = I.length(st, a)
    T = dty(I, t)
    names = {v['name']: i for i, v in enumerate(T['variants'])}
    for i in range(n):
        if not I.decide(st, p_ge(addc(la, -i - 1))):
            return adt(T['path'], names['Incomplete'])
        if not I.decide(st, p_eq(sub(elem_at(I, st, a, const(i)), elem_at(I, st, b, const(i))))):
            return adt(T['path'], names['Error'])
    return adt(T['path'], names['Ok'])


# ------------------------------------------------------------------ integers

@model('std::num::NonZero::new')
def nz_new(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    if not is_int(v):
        return NotImplemented
    if I.decide(st, p_ne(v)):
        return some(nonzero(v))
    return NONE


@model('std::num::NonZero::get')
def nz_get(I, fr, st, args, info, t):
    return I.field(st, args[0], 0)


@model('std::num::NonZero::new_unchecked')
def nz_newu(I, fr, st, args, info, t):
    return nonzero(I.force(st, args[0]))


@pattern(r'^<std::num::NonZero<T> as std::cmp::PartialEq>::(eq|ne)$')
def nz_eq(I, fr, st, args, info, t):
    a = I.force(st, I.field(st, target(I, st, args[0]), 0))
    b = I.force(st, I.field(st, target(I, st, args[1]), 0))
    p = p_eq(sub(a, b))
    return p_not(p) if info['path'].endswith('ne') else p


@pattern(r' as std::convert::From<std::num::NonZero<.*>>>::from$|^<\w+ as std::convert::From<std::num::NonZero')
def nz_from(I, fr, st, args, info, t):
    return I.field(st, args[0], 0)


@pattern(r'^std::num::(?:.*::)?(checked|wrapping|saturating|overflowing)_(add|sub|mul)$')
def arith(I, fr, st, args, info, t):
    m = re.search(r'(checked|wrapping|saturating|overflowing)_(add|sub|mul)$', info['path'])
    kind, op = m.groups()
    x, y = I.force(st, args[0]), I.force(st, args[1])
    if not (is_int(x) and is_int(y)):
        return NotImplemented
    ty = None
    d = dty(I, t)
    if kind == 'checked':
        ty = I.ty_args(d)[0]
    elif kind == 'overflowing':
        ty = d['fields'][0]
    else:
        ty = t['dty']
    rg = I.P.ty_range(ty)
    if rg is None:
        return NotImplemented
    lo, hi = trange(*rg)
    e = add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else I.mul(st, x, y)
    a, b = st.facts.range(e)
    fits_lo = a >= lo or I.decide(st, p_ge(addc(e, -lo)))
    fits_hi = True
    if fits_lo:
        fits_hi = b <= hi or I.decide(st, p_ge(addc(neg(e), hi)))
    if kind == 'checked':
        return some(e) if fits_lo and fits_hi else NONE
    if kind == 'saturating':
        return e if fits_lo and fits_hi else const(lo) if not fits_lo else const(hi)
    from .dom import wrap
    v = e if fits_lo and fits_hi else wrap(e, rg[0], rg[1])
    return v if kind == 'wrapping' else tup(v, not (fits_lo and fits_hi))


@pattern(r'^std::num::(?:.*::)?count_ones$')
def count_ones(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    bits = 128
    if 'i32' in info['path'] or 'u32' in info['path']:
        bits = 32
    elif info.get('ins'):
        pass
    f = I.T[t['fty']] if t.get('fty') is not None else None
    if f is not None and f.get('ins'):
        rg = I.P.ty_range(f['ins'][0])
        if rg:
            bits = rg[0]
    return popcount(v, bits)


@pattern(r'^std::num::(?:.*::)?(is_power_of_two|trailing_zeros|leading_zeros)$')
def bitfns(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    name = info['path'].rsplit('::', 1)[1]
    rg = (32, False)
    f = I.T[t['fty']] if t.get('fty') is not None else None
    if f is not None and f.get('ins'):
        rg = I.P.ty_range(f['ins'][0]) or rg
    if name == 'is_power_of_two':
        return p_eq(addc(popcount(v, rg[0]), -1))
    return op_atom('ctz' if name[0] == 't' else 'clz', 0, rg[0], v, rg[0])


@model('std::cmp::impls::max', 'std::cmp::max', 'std::cmp::Ord::max')
def cmp_max(I, fr, st, args, info, t):
    x, y = I.force(st, args[0]), I.force(st, args[1])
    if not (is_int(x) and is_int(y)):
        return NotImplemented
    d = st.facts.decide(p_ge(sub(y, x)))
    if d is None and foreign(I, fr):
        a, b, c, e = *st.facts.range(x), *st.facts.range(y)
        m = op_atom('max', max(a, c), max(b, e), x, y)
        st.facts.assume(p_ge(sub(m, x)))
        st.facts.assume(p_ge(sub(m, y)))
        return m
    return y if I.decide(st, p_ge(sub(y, x))) else x


def foreign(I, fr):
    """Library code clamps capacities: which of the two it takes does not matter there."""
    return fr is not None and fr.body.get('crate') != I.P.d['crate']


@model('std::cmp::impls::min', 'std::cmp::min', 'std::cmp::Ord::min')
def cmp_min(I, fr, st, args, info, t):
    x, y = I.force(st, args[0]), I.force(st, args[1])
    if not (is_int(x) and is_int(y)):
        return NotImplemented
    d = st.facts.decide(p_ge(sub(y, x)))
    if d is None and foreign(I, fr):
        a, b, c, e = *st.facts.range(x), *st.facts.range(y)
        m = op_atom('min', min(a, c), min(b, e), x, y)
        st.facts.assume(p_ge(sub(x, m)))
        st.facts.assume(p_ge(sub(y, m)))
        return m
    return x if I.decide(st, p_ge(sub(y, x))) else y


@model('std::mem::size_of', 'std::mem::align_of')
def size_of(I, fr, st, args, info, t):
    return of_atom(atom(0, 1 << 16, 'size_of', info.get('full', '')))


@pattern(r'^std::intrinsics::(?:.*::)?(black_box|likely|unlikely|assume|cold_path|assert_unsafe_precondition)$')
def intr_id(I, fr, st, args, info, t):
    n = info['path'].rsplit('::', 1)[1]
    if n in ('likely', 'unlikely', 'black_box'):
        return args[0]
    return UNIT


# ------------------------------------------------------------------ memory

@model('std::mem::replace', 'std::mem::take', 'std::mem::swap')
def mem_ops(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    c, p = self_loc(I, st, args[0])
    old = I.load(st, c, p)
    if name == 'replace':
        I.store(st, c, p, args[1])
        return old
    if name == 'swap':
        c2, p2 = self_loc(I, st, args[1])
        o2 = I.load(st, c2, p2)
        I.store(st, c, p, o2)
        I.store(st, c2, p2, old)
        return UNIT
    d = default_of(I, old)
    if d is None:
        return NotImplemented
    I.store(st, c, p, d)
    return old


def default_of(I, v):
    if not isinstance(v, Node):
        return False
    if v.tag == 'vec':
        return mk('vec', ())
    if v.tag == 'map':
        return mk('map', v.a[0], mk('empty'), ())
    if v.tag == 'adt' and v.a[0] == OPTION:
        return NONE
    if v.tag == 'lin':
        return ZERO
    return None


@model('std::mem::drop', 'std::mem::forget')
def mem_drop(I, fr, st, args, info, t):
    return UNIT


@model('std::ptr::eq', 'std::ptr::addr_eq')
def ptr_eq(I, fr, st, args, info, t):
    a, b = I.force(st, args[0]), I.force(st, args[1])
    if a is b and a.tag in ('wire', 'str'):
        return True
    if a.tag == 'str' and b.tag == 'str' and a.a[0] == 'w' and b.a[0] == 'w' and a.a[1] is b.a[1]:
        if not I.decide(st, p_eq(sub(a.a[2], b.a[2]))):
            return False
        return p_eq(sub(a.a[3], b.a[3]))
    if a.tag == 'wire' and b.tag == 'wire' and a.a[0] is b.a[0]:
        if not I.decide(st, p_eq(sub(a.a[1], b.a[1]))):
            return False
        return p_eq(sub(a.a[2], b.a[2]))
    if a.id > b.id:
        a, b = b, a
    return p_b(batom('ptreq', a, b))


@model('std::option::Option::take')
def opt_take(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    old = I.load(st, c, p)
    I.store(st, c, p, NONE)
    return old


@pattern(r'^std::clone::Clone::clone$|as std::clone::Clone>::clone$|^std::clone::impls::clone$|'
         r'^std::borrow::ToOwned::to_owned$|as std::borrow::ToOwned>::to_owned$')
def clone(I, fr, st, args, info, t):
    if info['kind'] == 'unresolved':
        return NotImplemented
    v = target(I, st, args[0])
    r = I.res(st, v)
    if isinstance(r, Node) and r.tag == 'clo' and info.get('inst') is not None:
        return r
    if r is args[0] and r.tag in ('slice', 'wire'):
        return mk('vec', I.parts(st, r)) if r.tag == 'slice' else NotImplemented
    return v


@pattern(r'^std::default::Default::default$|as std::default::Default>::default$')
def default(I, fr, st, args, info, t):
    ty = dty(I, t)
    if ty['k'] == 'int':
        return ZERO
    if ty['k'] == 'bool':
        return False
    if ty['k'] == 'adt':
        if ty['path'] == 'std::vec::Vec':
            return mk('vec', ())
        if ty['path'] in MAPS:
            return mk('map', ty['path'], mk('empty'), ())
        if ty['path'] == OPTION:
            return NONE
    return NotImplemented


MAPS = ('std::collections::HashMap', 'std::collections::BTreeMap')


@pattern(r'^std::boxed::Box::new$')
def box_new(I, fr, st, args, info, t):
    return mk('adt', 'std::boxed::Box', 0, (args[0],))


# ------------------------------------------------------------------ strings

def as_str(I, st, v):
    v = I.force(st, v)
    while v.tag in ('ref', 'mref'):
        v = I.force(st, I.deref(st, v))
    return v


@model('std::str::from_utf8', 'std::str::converts::from_utf8')
def from_utf8(I, fr, st, args, info, t):
    w = I.force(st, args[0])
    if w.tag == 'ref':
        w = I.force(st, w.a[0])
    if w.tag == 'wire':
        n = st.facts.norm(sub(w.a[2], w.a[1]))
        off = st.facts.norm(w.a[1])
        # a single byte is valid exactly when it is ASCII
        p = p_ge(sub(const(0x7F), I.byte(w.a[0], off))) if cval(n) == 1 else p_b(batom('utf8', w.a[0], off, n))
        if I.decide(st, p):
            return ok(mk('str', 'w', w.a[0], off, n))
        return err(mk('opq', 'Utf8Error'))
    return NotImplemented


def str_eq(I, st, a, b):
    if a is b:
        return True
    if a.tag == 'str' and b.tag == 'str':
        if a.a[0] == 'c' and b.a[0] == 'c':
            return a.a[1] == b.a[1]
        if a.id > b.id:
            a, b = b, a
        return str_test(st, 'streq', a, b)
    if a.id > b.id:
        a, b = b, a
    return p_b(batom('eq', a, b))


@pattern(r'^std::str::traits::(eq|ne)$|^<str as std::cmp::PartialEq>::(eq|ne)$')
def model_str_eq(I, fr, st, args, info, t):
    a, b = as_str(I, st, args[0]), as_str(I, st, args[1])
    p = str_eq(I, st, a, b)
    return p_not(p) if info['path'].endswith('ne') else p


@pattern(r'^std::str::(?:.*::)?(len|is_empty|as_bytes|chars|as_str|as_ptr|bytes)$|^std::string::String::(as_str|len|is_empty)$')
def str_methods(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    s = as_str(I, st, args[0])
    if s.tag != 'str':
        return mk('opq', 'str.' + name, s)
    if name == 'len':
        return I.str_len(s)
    if name == 'is_empty':
        return p_eq(I.str_len(s))
    if name in ('as_str', 'as_ptr'):
        return s
    if name in ('as_bytes',):
        if s.a[0] == 'w':
            return mk('wire', s.a[1], s.a[2], add(s.a[2], s.a[3]))
        if s.a[0] == 'c':
            return mk('slice', tuple(mk('E', const(b)) for b in s.a[1].encode()))
        return NotImplemented
    if name == 'chars':
        return mk('it', 'chars', s, True)
    return NotImplemented


@pattern(r'^std::str::(?:.*::)?(starts_with|ends_with|contains|eq_ignore_ascii_case|is_char_boundary|is_ascii)$')
def str_pred(I, fr, st, args, info, t):
    s = as_str(I, st, args[0])
    x = [I.res(st, a) for a in args[1:]]
    name = info['path'].rsplit('::', 1)[1]
    if name == 'is_char_boundary' and s.tag == 'str' and is_int(x[0]):
        return boundary(I, st, s, x[0])
    return str_test(st, 'str.' + name, s, *x)


def str_test(st, name, *x):
    if x[0].tag != 'str':
        return p_b(batom(name, *x))
    r = strings.known(st.facts, name, x)
    return p_b(batom(name, *x)) if r is None else r


def pattern_len(s, x):
    t = strings.text_of(x)
    return len(t.encode()) if t is not None else None


def found(s, k):
    """The pattern if an index is where one was found in the string."""
    if is_int(k) and not k.a[0] and len(k.a[1]) == 1 and k.a[1][0][1] == 1:
        a = k.a[1][0][0].a[2]
        if a[0] == 'sym' and a[1] in ('find', 'rfind') and a[2] is s:
            return a
    return None


def boundary(I, st, s, k):
    """Whether a character starts (or the string ends) at an index."""
    k = st.facts.norm(k)
    n = I.str_len(s)
    if not I.decide(st, p_ge(sub(n, k))):
        return False
    if I.decide(st, p_eq(k)) or st.facts.value(sub(n, k)) == 0:
        return True
    for a in (x for x, _c in k.a[1]):
        q = found(s, of_atom(a))
        if q is not None:
            m = pattern_len(s, q[3])
            r = sub(k, of_atom(a))
            if is_const(r) and cval(r) in (0, m):
                return True
    if s.a[0] == 'c':
        return is_const(k) and (cval(k) == n or s.a[1].encode()[cval(k)] & 0xC0 != 0x80) if is_const(k) else p_b(
            batom('str.is_char_boundary', s, k))
    if I.decide(st, str_test(st, 'str.is_char_boundary', s, k)):
        return True
    if not is_const(k):
        # where it comes from may say more
        I.unknown['a boundary in a string'] = 1
        st.ev('unknown', 'a boundary in a string', (s, k), None)
    return False


def substr(I, st, s, lo, hi):
    lo, hi = st.facts.norm(lo), st.facts.norm(hi)
    n = I.str_len(s)
    if st.facts.value(lo) == 0 and st.facts.value(sub(n, hi)) == 0:
        return s
    if s.a[0] == 'c' and is_const(lo) and is_const(hi):
        return mk('str', 'c', s.a[1].encode()[cval(lo):cval(hi)].decode())
    q = found(s, hi)
    if q is not None and st.facts.value(lo) == 0:
        return mk('str', 's', atom(0, INF, 'strsym', 'split_once' if q[1] == 'find' else 'rsplit_once', 0, s, *q[3:]))
    if is_const(lo) and s.a[0] != 'c' and st.facts.value(sub(n, hi)) == 0:
        for a, v in st.facts.bools.items():
            k = a.a[2]
            if v and k[0] == 'bool' and k[1] == 'str.starts_with' and k[2] is s and pattern_len(s, k[3]) == cval(lo):
                return mk('str', 's', atom(0, INF, 'strsym', 'strip_prefix', 0, s, k[3]))
    for a in (x for x, _c in lo.a[1]):
        q = found(s, of_atom(a))
        if q is not None and st.facts.value(sub(n, hi)) == 0:
            r = sub(lo, of_atom(a))
            if is_const(r) and cval(r) == pattern_len(s, q[3]):
                return mk('str', 's', atom(0, INF, 'strsym', 'split_once' if q[1] == 'find' else 'rsplit_once', 1, s, *q[3:]))
    if s.a[0] == 'w':
        return mk('str', 'w', s.a[1], add(s.a[2], lo), sub(hi, lo))
    r = mk('str', 's', atom(0, INF, 'strsym', 'slice', 0, s, lo, hi))
    st.facts.assume(p_eq(sub(I.str_len(r), sub(hi, lo))))
    return r


@pattern(r'\bstr::traits::<impl std::ops::Index<I> for str>::index$|^std::str::(?:.*::)?(get|split_at|split_at_checked)$|^std::str::traits::index$')
def str_index(I, fr, st, args, info, t):
    s = as_str(I, st, args[0])
    if s.tag != 'str':
        return NotImplemented
    name = info['path'].rsplit('::', 1)[1]
    n = I.str_len(s)
    i = I.force(st, args[1])
    if name.startswith('split_at'):
        if not is_int(i):
            return NotImplemented
        lo, hi = ZERO, i
    else:
        b = range_bounds(I, st, i, n)
        if b is None:
            return NotImplemented
        lo, hi = b
    fine = (I.decide(st, p_ge(sub(hi, lo))) and I.decide(st, p_ge(sub(n, hi)))
            and truth(I, st, boundary(I, st, s, lo)) and truth(I, st, boundary(I, st, s, hi)))
    if not fine:
        if name in ('get', 'split_at_checked'):
            return NONE
        I.panic(fr, st, t, 'str index out of range or inside a character')
        return []
    r = substr(I, st, s, lo, hi)
    if name.startswith('split_at'):
        r = tup(r, substr(I, st, s, hi, n))
    return some(r) if name in ('get', 'split_at_checked') else r


def truth(I, st, p):
    return p if isinstance(p, bool) else I.decide(st, p)


def part_of(name, i, s, *x):
    t = strings.text_of(s), strings.text_of(x[0])
    if None not in t:
        a, _, b = t[0].partition(t[1])
        return mk('str', 'c', b if i else a)
    return mk('str', 's', atom(0, INF, 'strsym', name, i, s, *x))


@pattern(r'^std::str::(?:.*::)?(split|splitn)$')
def str_split(I, fr, st, args, info, t):
    s = as_str(I, st, args[0])
    pat = I.res(st, args[-1])
    n = I.force(st, args[1]) if len(args) == 3 else ZERO
    if s.tag != 'str' or strings.text_of(pat) is None or not is_const(n) or len(args) == 3 and cval(n) == 0:
        return NotImplemented
    return mk('it', 'split', s, pat, cval(n))


@pattern(r'^std::str::(?:.*::)?(split_once|rsplit_once|strip_prefix|strip_suffix|find|rfind)$')
def str_opt(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    s = as_str(I, st, args[0])
    x = tuple(I.res(st, a) for a in args[1:])
    if s.tag == 'str' and s.a[0] == 'c' and x and is_int(x[0]) and is_const(x[0]) and name == 'split_once':
        a, m, b = s.a[1].partition(chr(cval(x[0])))
        return some(tup(mk('str', 'c', a), mk('str', 'c', b))) if m else NONE
    key = 'contains' if name in ('split_once', 'rsplit_once', 'find', 'rfind') else name
    if not truth(I, st, str_test(st, 'str.' + key, s, *x)):
        return NONE

    def part(i):
        return mk('str', 's', atom(0, INF, 'strsym', name, i, s, *x))
    if name in ('split_once', 'rsplit_once'):
        return some(tup(part(0), part(1)))
    if name in ('find', 'rfind'):
        k = of_atom(atom(0, ISIZE_MAX, 'sym', name, s, *x))
        if s.tag == 'str':
            st.facts.assume(p_ge(addc(sub(I.str_len(s), k), -(pattern_len(s, x[0]) or 0))))
        return some(k)
    return some(part(0))


@pattern(r'^std::str::(?:.*::)?(trim\w*|strip_circumfix)$')
def str_trim(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    s = as_str(I, st, args[0])
    if s.tag == 'str' and s.a[0] == 'c' and name in ('trim', 'trim_start', 'trim_end'):
        return mk('str', 'c', {'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip}[name](s.a[1]))
    x = tuple(I.res(st, a) for a in args[1:])
    # nothing to trim, or another string
    if not I.decide(st, p_b(batom('str.' + name, s, *x))):
        return s
    return mk('str', 's', atom(0, INF, 'strsym', name, 0, s, *x))


@pattern(r'as std::string::ToString>::to_string$|^std::fmt::format$|^std::string::ToString::to_string$|^alloc::fmt::format$')
def to_string(I, fr, st, args, info, t):
    v = I.res(st, args[0])
    if v.tag == 'ref':
        v = v.a[0]
    return mk('str', 's', atom(0, INF, 'tostring', info.get('tpath') or info['path'], v))


@pattern(r'^std::string::String::from$|^<std::string::String as std::convert::From<&str>>::from$')
def string_from(I, fr, st, args, info, t):
    return args[0]


@pattern(r'^std::fmt::|^std::hint::must_use$')
def fmt_any(I, fr, st, args, info, t):
    if info['path'].endswith('must_use'):
        return args[0]
    return mk('opq', 'fmt', info['path'], *[a for a in args if isinstance(a, Node)])


@pattern(r'^<rust_decimal::Decimal as std::str::FromStr>::from_str$|^rust_decimal::.*from_str_exact$')
def decimal_from_str(I, fr, st, args, info, t):
    s = as_str(I, st, args[0])
    name = info['path'].rsplit('::', 1)[1]
    if I.decide(st, p_b(batom('decimal', name, s))):
        return ok(mk('opq', 'decimal', name, s))
    return err(mk('opq', 'DecimalError'))


# ------------------------------------------------------------------ panics

@pattern(r'^std::panicking::|^std::rt::|^std::option::(?:unwrap_failed|expect_failed)$|^std::result::unwrap_failed$|'
         r'^std::slice::index::slice_.*fail|^std::process::(abort|exit)$|^std::vec::.*::assert_failed$|^std::str::slice_error_fail')
def panics(I, fr, st, args, info, t):
    if info.get('never') or info['path'].endswith(('_msg', '_fmt', 'panic', 'failed', 'fail', 'abort', 'exit')) or t.get('t') is None:
        I.panic(fr, st, t, info['path'])
        return []
    return NotImplemented


# ------------------------------------------------------------------ vectors and slices

def capacity(I, fr, st, n, t, value=None):
    """Memory is reserved for n elements."""
    I.reservations += 1
    if I.mute or not is_int(n) or st.facts.decide(p_ge(sub(const(1 << 16), n))) is True:
        return
    seen = set()
    todo = list(st.mem.values())
    while todo:
        v = todo.pop()
        if not isinstance(v, Node) or v in seen or v.tag in ('lin', 'atom', 'ge', 'eq', 'ne', 'b', 'str'):
            continue
        seen.add(v)
        try:
            if v.tag in ('vec', 'wire'):
                if st.facts.decide(p_ge(sub(I.length(st, v), n))) is True:
                    return
            elif v.tag == 'it' and v.a[0] == 'seq':
                if st.facts.decide(p_ge(sub(v.a[3], n))) is True:
                    return
        except Undecided:
            pass
        if v.tag in ('adt', 'tup', 'it', 'ref', 'slice', 'mrefto'):
            for x in v.a:
                todo += [y for y in x if isinstance(y, Node)] if isinstance(x, tuple) else [x]
    I.reserved.append((n, t.get('s'), fr.body['path'] if fr else None, st.copy(), value))


def push_parts(parts, new):
    return parts + tuple(new)


@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def vec_new(I, fr, st, args, info, t):
    if args:
        n = I.force(st, args[0])
        capacity(I, fr, st, st.facts.norm(n) if is_int(n) else n, t)
    return mk('vec', ())


@pattern(r'^std::vec::Vec::(reserve|reserve_exact|shrink_to_fit|try_reserve)$')
def vec_reserve(I, fr, st, args, info, t):
    if len(args) > 1:
        n = I.force(st, args[1])
        capacity(I, fr, st, st.facts.norm(n) if is_int(n) else n, t)
    if info['path'].endswith('try_reserve'):
        return ok(UNIT)
    return UNIT


@model('std::vec::from_elem')
def vec_from_elem(I, fr, st, args, info, t):
    n = I.force(st, args[1])
    capacity(I, fr, st, st.facts.norm(n), t, args[0])
    return mk('vec', (mk('Rep', args[0], n),))


@model('std::vec::Vec::push')
def vec_push(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    v = I.load(st, c, p)
    parts = I.parts(st, v)
    I.store(st, c, p, mk('vec', push_parts(parts, (mk('E', args[1]),))))
    return UNIT


@model('std::vec::Vec::len', 'std::slice::len', 'std::vec::IntoIter::len')
def vec_len(I, fr, st, args, info, t):
    v = I.force(st, target(I, st, args[0]))
    if v.tag == 'it':
        return it_len(I, st, v)
    return I.length(st, v)


@pattern(r'^std::(?:vec::Vec|slice|collections::\w+(?:::\w+)*|vec::IntoIter)::is_empty$')
def vec_is_empty(I, fr, st, args, info, t):
    v = I.force(st, target(I, st, args[0]))
    if v.tag == 'map':
        return p_eq(map_len(I, st, v))
    return p_eq(I.length(st, v))


@pattern(r'^<std::vec::Vec<T, A> as std::ops::(Deref|DerefMut)>::(deref|deref_mut)$|^std::vec::Vec::(as_slice|as_mut_slice)$|'
         r'^<std::vec::Vec<T, A> as std::(?:convert::AsRef|borrow::Borrow)<\[T\]>>::(as_ref|borrow)$|^std::array::(as_slice|as_ref)$')
def vec_deref(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    if v.tag == 'mref' and ('mut' in info['path'].rsplit('::', 1)[1]):
        return v
    return mk('slice', I.parts(st, v))


@model('std::slice::iter', 'std::slice::iter_mut', 'std::vec::Vec::iter', 'std::array::iter')
def slice_iter(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    if v.tag == 'wire':
        return mk('it', 'bytes', v)
    if info['path'].endswith('iter_mut'):
        return NotImplemented
    parts = I.parts(st, v)
    return mk('it', 'seq', parts, ZERO, I.seq_len(st, parts), 'ref')


@pattern(r'^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^<&.*std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|'
         r'^<&.*\[T\] as std::iter::IntoIterator>::into_iter$|^std::array::.*into_iter$|^<\[T; N\] as std::iter::IntoIterator>::into_iter$|'
         r'^<&.*\[T; N\] as std::iter::IntoIterator>::into_iter$|^std::slice::iter::into_iter$|^std::vec::into_iter$')
def vec_into_iter(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    if v.tag == 'wire':
        return mk('it', 'bytes', v)
    mode = 'val'
    if v.tag in ('ref', 'slice'):
        mode = 'ref'
    elif v.tag == 'mref':
        return NotImplemented
    if v.tag == 'ref':
        v = I.force(st, v.a[0])
    parts = I.parts(st, v)
    return mk('it', 'seq', parts, ZERO, I.seq_len(st, parts), mode)


@pattern(r'^std::(?:slice|vec::Vec)::(first|last|get)$')
def slice_get(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    v = I.force(st, target(I, st, args[0]))
    n = I.length(st, v)
    if name == 'get':
        i = I.force(st, args[1])
        if not is_int(i):
            r = range_bounds(I, st, i, n)
            if r is None:
                return NotImplemented
            lo, hi = r
            if not I.decide(st, p_ge(sub(hi, lo))) or not I.decide(st, p_ge(sub(n, hi))):
                return NONE
            return some(I.subslice(st, v, lo, hi))
    else:
        i = ZERO if name == 'first' else addc(n, -1)
    if not I.decide(st, p_ge(addc(sub(n, i), -1))) or not I.decide(st, p_ge(i)):
        return NONE
    if name == 'last' and v.tag != 'wire':
        ps = I.parts(st, v)
        if ps and ps[-1].tag == 'E':
            return some(mk('ref', ps[-1].a[0]))
    return some(mk('ref', I.index(st, v, i)))


def range_bounds(I, st, r, n):
    r = I.force(st, r)
    if r.tag == 'adt':
        p = r.a[0].rsplit('::', 1)[1]
        fs = [I.force(st, x) for x in r.a[2]]
        if p == 'Range':
            return fs[0], fs[1]
        if p == 'RangeTo':
            return ZERO, fs[0]
        if p == 'RangeFrom':
            return fs[0], n
        if p == 'RangeFull':
            return ZERO, n
        if p == 'RangeInclusive':
            return fs[0], addc(fs[1], 1)
        if p == 'RangeToInclusive':
            return ZERO, addc(fs[0], 1)
    return None


@pattern(r'^std::slice::index::index$|as std::ops::Index<I?.*>>::index$|^std::vec::.*::index$')
def slice_index(I, fr, st, args, info, t):
    v = I.force(st, target(I, st, args[0]))
    if v.tag == 'map':
        r = map_lookup(I, st, v, args[1], info)
        if r is None:
            I.panic(fr, st, t, 'map index')
            return []
        return mk('ref', r)
    i = I.force(st, args[1])
    n = I.length(st, v)
    if is_int(i):
        if not I.decide(st, p_ge(addc(sub(n, i), -1))):
            I.panic(fr, st, t, 'index out of bounds')
            return []
        return mk('ref', I.index(st, v, i))
    b = range_bounds(I, st, i, n)
    if b is None:
        return NotImplemented
    lo, hi = b
    if not I.decide(st, p_ge(sub(hi, lo))) or not I.decide(st, p_ge(sub(n, hi))):
        I.panic(fr, st, t, 'slice index out of range')
        return []
    return I.subslice(st, v, lo, hi)


@pattern(r'^std::slice::(split_at|split_at_checked|split_first)$')
def slice_split(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    v = I.force(st, target(I, st, args[0]))
    n = I.length(st, v)
    i = ONE if name == 'split_first' else I.force(st, args[1])
    if not I.decide(st, p_ge(sub(n, i))):
        if name == 'split_at':
            I.panic(fr, st, t, 'split_at out of range')
            return []
        return NONE
    a, b = I.subslice(st, v, ZERO, i), I.subslice(st, v, i, n)
    if name == 'split_first':
        return some(tup(mk('ref', I.index(st, v, ZERO)), b))
    r = tup(a, b)
    return some(r) if name == 'split_at_checked' else r


@pattern(r'^std::slice::(to_vec|into_vec)$|^std::slice::.*::to_owned$')
def slice_to_vec(I, fr, st, args, info, t):
    v = I.force(st, target(I, st, args[0]))
    if v.tag == 'adt' and v.a[0] == 'std::boxed::Box':
        v = I.force(st, v.a[2][0])
    if v.tag == 'wire':
        return NotImplemented
    return mk('vec', I.parts(st, v))


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def vec_remove(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    v = I.load(st, c, p)
    i = I.force(st, args[1])
    parts = I.parts(st, v)
    n = I.seq_len(st, parts)
    if not I.decide(st, p_ge(addc(sub(n, i), -1))):
        I.panic(fr, st, t, 'Vec::remove out of range')
        return []
    x = I.elem(st, parts, i)
    a = I.slice_parts(st, parts, ZERO, i)
    b = I.slice_parts(st, parts, addc(i, 1), addc(sub(n, i), -1))
    if info['path'].endswith('swap_remove'):
        if not (st.facts.value(addc(sub(n, i), -1)) == 0):
            last = I.elem(st, parts, addc(n, -1))
            b = (mk('E', last),) + I.slice_parts(st, parts, addc(i, 1), addc(sub(n, i), -2))
    I.store(st, c, p, mk('vec', a + b))
    return x


@pattern(r'^std::slice::(?:.*::)?(swap|reverse|sort\w*|rotate_left|rotate_right|select_nth_unstable\w*)$')
def slice_reorder(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    c, p = self_loc(I, st, args[0])
    v = I.load(st, c, p)
    if I.force(st, v).tag not in ('vec', 'arr', 'slice'):
        return NotImplemented
    parts = I.parts(st, v)
    n = I.seq_len(st, parts)

    def put(parts):
        if I.force(st, v).tag == 'arr':
            if not all(x.tag == 'E' for x in parts):
                return NotImplemented
            I.store(st, c, p, mk('arr', tuple(x.a[0] for x in parts)))
        else:
            I.store(st, c, p, mk(I.force(st, v).tag, tuple(parts)))
        return UNIT
    if name == 'swap':
        i, j = I.force(st, args[1]), I.force(st, args[2])
        for k in (i, j):
            if not I.decide(st, p_ge(addc(sub(n, k), -1))):
                I.panic(fr, st, t, 'swap out of range')
                return []
        if I.decide(st, p_eq(sub(i, j))):
            return UNIT
        if not I.decide(st, p_ge(sub(j, i))):
            i, j = j, i
        x, y = I.elem(st, parts, i), I.elem(st, parts, j)
        return put(I.slice_parts(st, parts, ZERO, i) + (mk('E', y),)
                   + I.slice_parts(st, parts, addc(i, 1), addc(sub(j, i), -1)) + (mk('E', x),)
                   + I.slice_parts(st, parts, addc(j, 1), addc(sub(n, j), -1)))
    if name == 'reverse':
        if all(x.tag == 'E' for x in parts):
            return put(parts[::-1])
        if len(parts) == 1 and parts[0].tag == 'Rep':
            return put(parts)
        if len(parts) == 1 and parts[0].tag == 'Rv':
            return put(parts[0].a[0])
        return put((mk('Rv', parts, n),))
    if name in ('rotate_left', 'rotate_right'):
        k = I.force(st, args[1])
        if not I.decide(st, p_ge(sub(n, k))):
            I.panic(fr, st, t, 'rotate out of range')
            return []
        if name == 'rotate_right':
            k = sub(n, k)
        return put(I.slice_parts(st, parts, k, sub(n, k)) + I.slice_parts(st, parts, ZERO, k))
    if all(x.tag == 'E' for x in parts) and len(parts) <= 1 or cval(n) == 0:
        return UNIT
    ty = seq_elem_ty(I, info, parts)
    return put((mk('Sq', atom(0, INF, 'seq', 'sorted', name, parts), n, ty),))


def seq_elem_ty(I, info, parts):
    """The type of the elements, where it is known."""
    for x in parts:
        if x.tag == 'Sq' and x.a[2] != -1:
            return x.a[2]
    a = [x for x in info.get('args') or info.get('rargs') or () if isinstance(x, int)]
    return a[0] if a else -1


@model('std::vec::Vec::insert')
def vec_insert(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    v = I.load(st, c, p)
    i = I.force(st, args[1])
    parts = I.parts(st, v)
    n = I.seq_len(st, parts)
    if not I.decide(st, p_ge(sub(n, i))):
        I.panic(fr, st, t, 'Vec::insert out of range')
        return []
    a = I.slice_parts(st, parts, ZERO, i)
    b = I.slice_parts(st, parts, i, sub(n, i))
    I.store(st, c, p, mk('vec', a + (mk('E', args[2]),) + b))
    return UNIT


@model('std::vec::Vec::pop')
def vec_pop(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    parts = I.parts(st, I.load(st, c, p))
    n = I.seq_len(st, parts)
    if I.decide(st, p_eq(n)):
        return NONE
    x = parts[-1].a[0] if parts[-1].tag == 'E' else I.elem(st, parts, addc(n, -1))
    rest = parts[:-1] if parts[-1].tag == 'E' else I.slice_parts(st, parts, ZERO, addc(n, -1))
    I.store(st, c, p, mk('vec', rest))
    return some(x)


@model('std::vec::Vec::truncate', 'std::vec::Vec::clear')
def vec_truncate(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    parts = I.parts(st, I.load(st, c, p))
    n = I.seq_len(st, parts)
    k = I.force(st, args[1]) if len(args) > 1 else ZERO
    if I.decide(st, p_ge(sub(k, n))):
        return UNIT
    I.store(st, c, p, mk('vec', I.slice_parts(st, parts, ZERO, k)))
    return UNIT


@model('std::vec::Vec::resize')
def vec_resize(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    parts = I.parts(st, I.load(st, c, p))
    n = I.seq_len(st, parts)
    k = I.force(st, args[1])
    if I.decide(st, p_ge(sub(k, n))):
        capacity(I, fr, st, st.facts.norm(sub(k, n)), t, args[2])
        I.store(st, c, p, mk('vec', parts + (mk('Rep', args[2], sub(k, n)),)))
    else:
        I.store(st, c, p, mk('vec', I.slice_parts(st, parts, ZERO, k)))
    return UNIT


@model('std::vec::Vec::append', 'std::vec::Vec::extend_from_slice')
def vec_append(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    parts = I.parts(st, I.load(st, c, p))
    o = I.force(st, args[1])
    if o.tag == 'mref':
        more = I.parts(st, I.load(st, o.a[0], o.a[1]))
        I.store(st, o.a[0], o.a[1], mk('vec', ()))
    else:
        if o.tag == 'wire':
            return NotImplemented
        more = I.parts(st, o)
    I.store(st, c, p, mk('vec', parts + more))
    return UNIT


@model('std::vec::Vec::split_off')
def vec_split_off(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    parts = I.parts(st, I.load(st, c, p))
    n = I.seq_len(st, parts)
    k = I.force(st, args[1])
    if not I.decide(st, p_ge(sub(n, k))):
        I.panic(fr, st, t, 'Vec::split_off out of range')
        return []
    I.store(st, c, p, mk('vec', I.slice_parts(st, parts, ZERO, k)))
    return mk('vec', I.slice_parts(st, parts, k, sub(n, k)))


@model('std::vec::Vec::drain')
def vec_drain(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    parts = I.parts(st, I.load(st, c, p))
    n = I.seq_len(st, parts)
    b = range_bounds(I, st, args[1], n)
    if b is None:
        return NotImplemented
    lo, hi = b
    if not I.decide(st, p_ge(sub(hi, lo))) or not I.decide(st, p_ge(sub(n, hi))):
        I.panic(fr, st, t, 'Vec::drain out of range')
        return []
    mid = I.slice_parts(st, parts, lo, sub(hi, lo))
    rest = I.slice_parts(st, parts, ZERO, lo) + I.slice_parts(st, parts, hi, sub(n, hi))
    I.store(st, c, p, mk('vec', rest))
    return mk('it', 'seq', mid, ZERO, sub(hi, lo), 'val')


# ------------------------------------------------------------------ maps

def map_ty(I, info):
    """Value type of a map method from its generic arguments."""
    a = [x for x in info.get('args', []) if isinstance(x, int)]
    return a


def key_eq(I, st, a, b):
    a, b = I.force(st, a), I.force(st, b)
    if a is b:
        return True
    if a.tag == 'ref' or b.tag == 'ref':
        return key_eq(I, st, a.a[0] if a.tag == 'ref' else a, b.a[0] if b.tag == 'ref' else b)
    if a.tag == 'adt' and b.tag == 'adt' and a.a[0] == NONZERO:
        return p_eq(sub(I.force(st, a.a[2][0]), I.force(st, b.a[2][0])))
    if is_int(a) and is_int(b):
        return p_eq(sub(a, b))
    return str_eq(I, st, a, b)


def norm_key(I, st, k):
    k = I.force(st, k)
    while k.tag in ('ref', 'mref'):
        k = I.force(st, I.deref(st, k))
    return I.deep(st, k)


INS, REM = const(1), const(2)


def map_lookup(I, st, m, k, info):
    """Value bound to a key, or None."""
    path, base, log = m.a
    k = norm_key(I, st, k)
    for p in reversed(log):
        if p.tag != 'E':
            # entries made by a loop: nothing is known about the keys
            if not I.decide(st, p_b(batom('has', m, k))):
                return None
            return map_val(I, st, m, k, info)
        op, k2, v = p.a[0].a[0]
        if I.decide(st, key_eq(I, st, k2, k)):
            return v if op is INS else None
    if isinstance(base, Node) and base.tag == 'empty':
        return None
    if not I.decide(st, p_b(batom('has', base, k))):
        return None
    return map_val(I, st, base, k, info)


def map_val(I, st, base, k, info):
    h = getattr(I, 'map_value', None)
    if h is not None:
        r = h(I, st, base, k)
        if r is not None:
            return r
    a = map_ty(I, info)
    if len(a) < 2:
        return mk('opq', 'mapval', base, k)
    return I.make_sym(st, a[1], 'mapval', base, k)


def map_len(I, st, m):
    path, base, log = m.a
    if isinstance(base, Node) and base.tag == 'empty' and not log:
        return ZERO
    return of_atom(atom(0, ISIZE_MAX, 'maplen', m))


def map_name(m):
    b = m.a[1]
    return b


@pattern(r'^std::collections::(?:\w+::)*(?:BTreeMap|HashMap)::(get|contains_key|get_mut|get_key_value)$')
def map_get(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    m = I.force(st, target(I, st, args[0]))
    if m.tag != 'map':
        return NotImplemented
    r = map_lookup(I, st, m, args[1], info)
    k = norm_key(I, st, args[1])
    st.ev('map', name, m.a[1], k, r, t.get('s'))
    if name == 'contains_key':
        return r is not None
    if r is None:
        return NONE
    if name == 'get_mut':
        return NotImplemented
    if name == 'get_key_value':
        return some(tup(mk('ref', k), mk('ref', r)))
    return some(mk('ref', r))


@pattern(r'^std::collections::(?:\w+::)*(?:BTreeMap|HashMap)::(insert|remove|remove_entry)$')
def map_change(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    c, p = self_loc(I, st, args[0])
    m = I.force(st, I.load(st, c, p))
    if m.tag != 'map':
        return NotImplemented
    k = norm_key(I, st, args[1])
    r = map_lookup(I, st, m, k, info)
    path, base, log = m.a
    op = INS if name == 'insert' else REM
    v = args[2] if name == 'insert' else UNIT
    if name == 'insert':
        st.ev('map', 'insert', base, k, v, t.get('s'), r)
    else:
        st.ev('map', 'remove', base, k, r, t.get('s'))
    if name == 'insert' or r is not None:
        I.store(st, c, p, mk('map', path, base, log + (mk('E', tup(op, k, v)),)))
    if r is None:
        return NONE
    return some(tup(k, r)) if name == 'remove_entry' else some(r)


@pattern(r'^std::collections::(?:\w+::)*(?:BTreeMap|HashMap)::(new|with_capacity)$')
def map_new(I, fr, st, args, info, t):
    if args:
        n = I.force(st, args[0])
        capacity(I, fr, st, st.facts.norm(n) if is_int(n) else n, t)
    return mk('map', dty(I, t)['path'], mk('empty'), ())


@pattern(r'^std::collections::(?:\w+::)*(?:BTreeMap|HashMap)::len$')
def map_len_m(I, fr, st, args, info, t):
    m = I.force(st, target(I, st, args[0]))
    if m.tag != 'map':
        return NotImplemented
    return map_len(I, st, m)


@pattern(r'^std::collections::(?:\w+::)*(?:BTreeMap|HashMap)::(iter|keys|values|into_iter|into_values|into_keys)$|'
         r'^<&.*std::collections::.*Map<.*> as std::iter::IntoIterator>::into_iter$')
def map_iter(I, fr, st, args, info, t):
    a = I.force(st, args[0])
    m = I.force(st, target(I, st, a))
    name = info['path'].rsplit('::', 1)[1]
    return map_seq(I, st, m, 'iter' if name == 'into_iter' and a.tag in ('ref', 'mref') else name, t)


def map_seq(I, st, m, mode, t):
    """An iterator over a map nothing was put into: entry i has the i-th key and its value."""
    d = dty(I, t) if t and t.get('dty') is not None else None
    ts = [x for x in d.get('args', ()) if isinstance(x, int)] if d else []
    if m.tag == 'map' and m.a[2] and len(ts) >= 2 and d['path'].startswith('std::collections::'):
        return mk('it', 'mapany', m, map_len(I, st, m), mode, ts[0], ts[1])
    if m.tag != 'map' or m.a[2] or len(ts) < 2 or not d['path'].startswith('std::collections::'):
        return mk('it', 'mapit', m, mode)
    return mk('it', 'mapseq', m, ZERO, map_len(I, st, m), mode, ts[0], ts[1])


def map_entry_at(I, st, m, i, kty, vty):
    return I.make_sym(st, kty, 'mapkey', m.a[1], i), I.make_sym(st, vty, 'mapent', m.a[1], i)


def any_entry(I, st, m, tag, kty, vty):
    """Some entry of a map (key and value), or None if there cannot be one."""
    T = I.T[kty]
    if T['k'] == 'adt' and T['path'] == NONZERO:
        inner = I.P.ty_range([x for x in T.get('args', ()) if isinstance(x, int)][0])
        hi = trange(*inner)[1] if inner else ISIZE_MAX
        k = nonzero(of_atom(atom(1, hi, 'sym', 'anykey', m, tag)))
    else:
        k = I.make_sym(st, kty, 'anykey', m, tag)
    k = norm_key(I, st, k)
    r = map_lookup(I, st, m, k, {'args': [kty, vty]})
    return None if r is None else (k, r)


@pattern(r'^std::collections::(?:\w+::)*BTreeMap::(first_key_value|last_key_value|pop_first|pop_last)$')
def map_ends(I, fr, st, args, info, t):
    """The first or last entry can be any."""
    name = info['path'].rsplit('::', 1)[1]
    pop = name.startswith('pop')
    ts = map_ty(I, info)
    m = I.force(st, target(I, st, args[0]))
    if m.tag != 'map' or len(ts) < 2:
        return NotImplemented
    if not I.decide(st, p_ge(addc(map_len(I, st, m), -1))):
        return NONE
    e = any_entry(I, st, m, name.rsplit('_', 1)[-1], ts[0], ts[1])
    if e is None:
        return []
    k, v = e
    if not pop:
        st.ev('map', 'get', m.a[1], k, v, t.get('s'))
        return some(tup(mk('ref', k), mk('ref', v)))
    c, p = self_loc(I, st, args[0])
    path, base, log = m.a
    st.ev('map', 'remove', base, k, v, t.get('s'))
    I.store(st, c, p, mk('map', path, base, log + (mk('E', tup(REM, k, UNIT)),)))
    return some(tup(k, v))


@pattern(r'^std::collections::(?:\w+::)*BTreeMap::range$')
def map_range(I, fr, st, args, info, t):
    ts = map_ty(I, info)
    m = I.force(st, target(I, st, args[0]))
    if m.tag != 'map' or len(ts) < 2:
        return NotImplemented
    n = of_atom(atom(0, ISIZE_MAX, 'rangelen', m, I.res(st, args[1])))
    return mk('it', 'mapany', m, n, 'iter', ts[0], ts[1])


@pattern(r'^std::collections::(?:\w+::)*(?:BTreeMap|HashMap)::(clear)$')
def map_clear(I, fr, st, args, info, t):
    c, p = self_loc(I, st, args[0])
    m = I.force(st, I.load(st, c, p))
    st.ev('map', 'clear', m.a[1], None, None, t.get('s'))
    I.store(st, c, p, mk('map', m.a[0], mk('empty'), ()))
    return UNIT


@pattern(r'^std::collections::(?:\w+::)*(?:BTreeMap|HashMap)::entry$')
def map_entry(I, fr, st, args, info, t):
    """Entry API: the entry enum with variant 0 vacant, 1 occupied (std's own order is looked up)."""
    v = I.force(st, args[0])
    if v.tag != 'mref':
        return NotImplemented
    m = I.force(st, I.load(st, v.a[0], v.a[1]))
    if m.tag != 'map':
        return NotImplemented
    k = norm_key(I, st, args[1])
    r = map_lookup(I, st, m, k, info)
    T = dty(I, t)
    names = {x['name']: i for i, x in enumerate(T.get('variants') or [])}
    st.ev('map', 'contains_key', m.a[1], k, r, t.get('s'))
    if r is None:
        return adt(T['path'], names.get('Vacant', 0), mk('ent', v, k, UNIT))
    return adt(T['path'], names.get('Occupied', 1), mk('ent', v, k, r))


@pattern(r'^(?:std|alloc)::collections::.*(?:VacantEntry|OccupiedEntry)(?:::<.*>)?::(insert|get|remove|key)$')
def entry_ops(I, fr, st, args, info, t):
    name = info['path'].rsplit('::', 1)[1]
    e = I.force(st, args[0])
    if e.tag in ('ref', 'mref'):
        e = I.force(st, I.deref(st, e))
    if e.tag != 'ent':
        return NotImplemented
    v, k, r = e.a
    if name == 'get':
        return mk('ref', r)
    if name == 'key':
        return mk('ref', k)
    m = I.force(st, I.load(st, v.a[0], v.a[1]))
    path, base, log = m.a
    if name == 'insert':
        st.ev('map', 'insert', base, k, args[1], t.get('s'), None if r is UNIT else r)
        I.store(st, v.a[0], v.a[1], mk('map', path, base, log + (mk('E', tup(INS, k, args[1])),)))
        return r if 'Occupied' in info['path'] else mk('opq', 'entryref', k)
    if name == 'remove':
        st.ev('map', 'remove', base, k, r, t.get('s'))
        I.store(st, v.a[0], v.a[1], mk('map', path, base, log + (mk('E', tup(REM, k, UNIT)),)))
        return r
    return NotImplemented


@pattern(r'^(?:std|alloc)::collections::.*Entry(?:::<.*>)?::(or_insert|or_insert_with|or_insert_with_key|or_default|key)$')
def entry_or(I, fr, st, args, info, t):
    """What is there, or else what is put there; the reference that comes back can only be read."""
    name = info['path'].rsplit('::', 1)[1]
    e = I.force(st, args[0])
    if e.tag in ('ref', 'mref'):
        e = I.force(st, I.deref(st, e))
    if e.tag != 'adt' or len(e.a[2]) != 1:
        return NotImplemented
    ent = I.force(st, e.a[2][0])
    if ent.tag != 'ent':
        return NotImplemented
    v, k, r = ent.a
    if name == 'key':
        return mk('ref', k)
    if r is not UNIT:
        return mk('ref', r)
    if name == 'or_default':
        return NotImplemented
    if name == 'or_insert':
        made = [(args[1], None, st)]
    else:
        made = call_fn_value(I, fr, st, args[1], [mk('ref', k)] if name.endswith('key') else [], t)
    out = []
    for x, _f, s in made:
        path, base, log = I.force(s, I.load(s, v.a[0], v.a[1])).a
        s.ev('map', 'insert', base, k, x, t.get('s'), None)
        I.store(s, v.a[0], v.a[1], mk('map', path, base, log + (mk('E', tup(INS, k, x)),)))
        out.append((mk('ref', x), s))
    return out


# ------------------------------------------------------------------ iterators

def it_len(I, st, it):
    """Number of remaining items, or None."""
    it = I.force(st, it)
    if it.tag == 'mref':
        return it_len(I, st, I.load(st, it.a[0], it.a[1]))
    if it.tag == 'adt' and it.a[0].endswith('::Range'):
        a, b = I.force(st, it.a[2][0]), I.force(st, it.a[2][1])
        return sub(b, a) if I.decide(st, p_ge(sub(b, a))) else ZERO
    if it.tag != 'it':
        return None
    k = it.a[0]
    if k == 'seq':
        return sub(it.a[3], it.a[2])
    if k == 'bytes':
        return I.length(st, it.a[1])
    if k in ('map', 'copied', 'fuse', 'rev', 'enumerate'):
        return it_len(I, st, it.a[1])
    if k == 'zip':
        a, b = it_len(I, st, it.a[1]), it_len(I, st, it.a[2])
        if a is None or b is None:
            return None
        return b if I.decide(st, p_ge(sub(a, b))) else a
    if k == 'take':
        a = it_len(I, st, it.a[1])
        if a is None:
            return None
        return it.a[2] if I.decide(st, p_ge(sub(a, it.a[2]))) else a
    if k == 'chain':
        a, b = it_len(I, st, it.a[1]), it_len(I, st, it.a[2])
        return None if a is None or b is None else add(a, b)
    if k == 'mapit':
        return map_len(I, st, it.a[1])
    if k == 'mapany':
        return it.a[2]
    if k == 'mapseq':
        return sub(it.a[3], it.a[2])
    if k == 'opt':
        return ONE if it.a[1] is not UNIT else ZERO
    return None


def it_next(I, fr, st, it, t):
    """[(item or None, iterator afterwards, state)]; may raise Split before changing anything."""
    it = I.force(st, it)
    if it.tag == 'mref':
        out = []
        cell, path = it.a
        for x, i2, s in it_next(I, fr, st, I.load(st, cell, path), t):
            I.store(s, cell, path, i2)
            out.append((x, it, s))
        return out
    if it.tag == 'adt' and it.a[0].rsplit('::', 1)[1] in ('Range', 'RangeFrom'):
        a = I.force(st, it.a[2][0])
        if it.a[0].endswith('RangeFrom'):
            return [(a, mk('adt', it.a[0], 0, (addc(a, 1),)), st)]
        b = I.force(st, it.a[2][1])
        if I.decide(st, p_ge(addc(sub(b, a), -1))):
            return [(a, mk('adt', it.a[0], 0, (addc(a, 1), b)), st)]
        return [(None, it, st)]
    if it.tag == 'adt' and it.a[0].endswith('RangeInclusive'):
        a, b, ex = [I.force(st, x) for x in it.a[2]]
        if ex is True or (ex is not False and I.decide(st, ex)):
            return [(None, it, st)]
        if not I.decide(st, p_ge(sub(b, a))):
            return [(None, it, st)]
        if I.decide(st, p_eq(sub(b, a))):
            return [(a, mk('adt', it.a[0], 0, (a, b, True)), st)]
        return [(a, mk('adt', it.a[0], 0, (addc(a, 1), b, False)), st)]
    if it.tag == 'opq':
        return opaque_next(I, st, it, t)
    if it.tag == 'sym':
        return opaque_next(I, st, it, t)
    if it.tag != 'it':
        raise Undecided('iterator %s' % show(it))
    k = it.a[0]
    if k == 'split':
        _, s, pat, n = it.a
        if s is UNIT:
            return [(None, it, st)]
        if n != 1 and truth(I, st, str_test(st, 'str.contains', s, pat)):
            a, b = [part_of('split_once', i, s, pat) for i in (0, 1)]
            return [(a, mk('it', 'split', b, pat, n - 1 if n else 0), st)]
        return [(s, mk('it', 'split', UNIT, pat, 0), st)]
    if k == 'seq':
        _, parts, pos, end, mode = it.a
        if not I.decide(st, p_ge(addc(sub(end, pos), -1))):
            return [(None, it, st)]
        x = I.elem(st, parts, pos)
        x = mk('ref', x) if mode == 'ref' else x
        return [(x, mk('it', 'seq', parts, addc(pos, 1), end, mode), st)]
    if k == 'mapseq':
        _, m, pos, end, mode, kty, vty = it.a
        if not I.decide(st, p_ge(addc(sub(end, pos), -1))):
            return [(None, it, st)]
        x, y = map_entry_at(I, st, m, pos, kty, vty)
        if not mode.startswith('into_'):
            x, y = mk('ref', x), mk('ref', y)
        v = x if mode.endswith('keys') else y if mode.endswith('values') else tup(x, y)
        return [(v, mk('it', 'mapseq', m, addc(pos, 1), end, mode, kty, vty), st)]
    if k == 'mapany':
        _, m, n, mode, kty, vty = it.a
        if not I.decide(st, p_ge(addc(n, -1))):
            return [(None, it, st)]
        e = any_entry(I, st, m, n, kty, vty)
        if e is None:
            return []
        x, y = e
        st.ev('map', 'get', m.a[1], x, y, t.get('s') if t else None)
        if not mode.startswith('into_'):
            x, y = mk('ref', x), mk('ref', y)
        v = x if mode.endswith('keys') else y if mode.endswith('values') else tup(x, y)
        return [(v, mk('it', 'mapany', m, addc(n, -1), mode, kty, vty), st)]
    if k == 'bytes':
        w = it.a[1]
        if not I.decide(st, p_ge(addc(sub(w.a[2], w.a[1]), -1))):
            return [(None, it, st)]
        return [(mk('ref', I.byte(w.a[0], w.a[1])), mk('it', 'bytes', mk('wire', w.a[0], addc(w.a[1], 1), w.a[2])), st)]
    if k in ('copied', 'fuse'):
        out = []
        for x, i2, s in it_next(I, fr, st, it.a[1], t):
            if x is not None and k == 'copied':
                x = I.deref(s, x)
            out.append((x, mk('it', k, i2), s))
        return out
    if k == 'map':
        out = []
        for x, i2, s in it_next(I, fr, st, it.a[1], t):
            if x is None:
                out.append((None, mk('it', 'map', i2, it.a[2]), s))
                continue
            for v, f2, s2 in call_fn_value(I, fr, s, it.a[2], [x], t):
                out.append((v, mk('it', 'map', i2, f2), s2))
        return out
    if k == 'enumerate':
        out = []
        for x, i2, s in it_next(I, fr, st, it.a[1], t):
            if x is None:
                out.append((None, mk('it', k, i2, it.a[2]), s))
            else:
                out.append((tup(it.a[2], x), mk('it', k, i2, addc(it.a[2], 1)), s))
        return out
    if k == 'zip':
        out = []
        for x, a2, s in it_next(I, fr, st, it.a[1], t):
            if x is None:
                out.append((None, mk('it', 'zip', a2, it.a[2]), s))
                continue
            for y, b2, s2 in multi(I, s, lambda z: it_next(I, fr, z, it.a[2], t)):
                out.append((None if y is None else tup(x, y), mk('it', 'zip', a2, b2), s2))
        return out
    if k == 'take':
        n = it.a[2]
        if not I.decide(st, p_ge(addc(n, -1))):
            return [(None, it, st)]
        return [(x, mk('it', 'take', i2, addc(n, -1)), s) for x, i2, s in it_next(I, fr, st, it.a[1], t)]
    if k == 'rev':
        return [(x, mk('it', 'rev', i2), s) for x, i2, s in it_next_back(I, fr, st, it.a[1], t)]
    if k == 'chain':
        out = []
        for x, a2, s in it_next(I, fr, st, it.a[1], t):
            if x is not None:
                out.append((x, mk('it', 'chain', a2, it.a[2]), s))
                continue
            for y, b2, s2 in multi(I, s, lambda z: it_next(I, fr, z, it.a[2], t)):
                out.append((y, mk('it', 'chain', a2, b2), s2))
        return out
    if k == 'opt':
        if it.a[1] is UNIT:
            return [(None, it, st)]
        return [(it.a[1].a[0], mk('it', 'opt', UNIT), st)]
    if k == 'chars':
        s0, first = it.a[1], it.a[2]
        if first and s0.tag == 'str':
            n = I.str_len(s0)
            if I.decide(st, p_eq(n)):
                return [(None, it, st)]
            s1 = I.deep(st, s0)
            if s1.a[0] == 'w' and cval(s1.a[3]) == 1:
                c = I.byte(s1.a[1], s1.a[2])
            else:
                c = of_atom(atom(0, 0x10FFFF, 'char', s1))
            return [(c, mk('it', 'chars', s0, False), st)]
        return opaque_next(I, st, it, t)
    return opaque_next(I, st, it, t)


def item_ty(I, t):
    d = I.T[t['dty']] if t and t.get('dty') is not None else None
    if d is not None and d['k'] == 'adt' and d['path'] == OPTION:
        return I.ty_args(d)[0]
    return None


def opaque_next(I, st, it, t):
    I.unknown['iterator ' + str(it.a[0])] = I.unknown.get('iterator ' + str(it.a[0]), 0) + 1
    st.serial += 1
    b = batom('next', it, I.fresh(st))
    ty = item_ty(I, t)
    s2 = st.copy()
    out = []
    if s2.facts.assume(p_b(b)):
        x = I.make_sym(s2, ty, 'item', it, I.fresh(st)) if ty is not None else mk('opq', 'item', it)
        out.append((x, mk('opq', 'iter', it, I.fresh(st)), s2))
    if st.facts.assume(p_b(b, False)):
        out.append((None, it, st))
    return out


def it_next_back(I, fr, st, it, t):
    it = I.force(st, it)
    if it.tag == 'mref':
        out = []
        cell, path = it.a
        for x, i2, s in it_next_back(I, fr, st, I.load(st, cell, path), t):
            I.store(s, cell, path, i2)
            out.append((x, it, s))
        return out
    if it.tag == 'adt' and it.a[0].endswith('::Range'):
        a, b = I.force(st, it.a[2][0]), I.force(st, it.a[2][1])
        if I.decide(st, p_ge(addc(sub(b, a), -1))):
            return [(addc(b, -1), mk('adt', it.a[0], 0, (a, addc(b, -1))), st)]
        return [(None, it, st)]
    if it.tag == 'it':
        k = it.a[0]
        if k == 'mapany':
            return it_next(I, fr, st, it, t)
        if k == 'seq':
            _, parts, pos, end, mode = it.a
            if not I.decide(st, p_ge(addc(sub(end, pos), -1))):
                return [(None, it, st)]
            e = addc(end, -1)
            x = I.elem(st, parts, e)
            return [(mk('ref', x) if mode == 'ref' else x, mk('it', 'seq', parts, pos, e, mode), st)]
        if k == 'copied':
            return [(None if x is None else I.deref(s, x), mk('it', k, i2), s)
                    for x, i2, s in it_next_back(I, fr, st, it.a[1], t)]
        if k == 'rev':
            return [(x, mk('it', 'rev', i2), s) for x, i2, s in it_next(I, fr, st, it.a[1], t)]
        if k == 'map':
            out = []
            for x, i2, s in it_next_back(I, fr, st, it.a[1], t):
                if x is None:
                    out.append((None, mk('it', 'map', i2, it.a[2]), s))
                    continue
                for v, f2, s2 in call_fn_value(I, fr, s, it.a[2], [x], t):
                    out.append((v, mk('it', 'map', i2, f2), s2))
            return out
    return opaque_next(I, st, it, t)


def call_fn_value(I, fr, st, f, args, t):
    """Call a function held by an iterator; returns [(value, function afterwards, state)]."""
    f = I.force(st, f)
    if f.tag != 'clo':
        return [(v, f, s) for v, s in multi(I, st, lambda z: I.call_value(fr, z, f, args, None))]
    cell = ('itf', len(I.stack), I.fresh(st))
    st.mem[cell] = f
    r = mk('mref', cell, ())
    out = []
    for v, s in multi(I, st, lambda z: I.call_value(fr, z, r, args, None)):
        f2 = s.mem.pop(cell, f)
        out.append((v, f2, s))
    return out


def is_iter(v):
    return isinstance(v, Node) and (v.tag == 'it' or (v.tag == 'adt' and v.a[0].startswith('std::ops::Range')) or v.tag == 'mref')


ADAPT = r'^(?:<.* as std::iter::Iterator>|std::iter::Iterator|<.* as std::iter::DoubleEndedIterator>|std::iter::(?:\w+::)*(?:range|Iterator)|std::iter::DoubleEndedIterator|std::iter::range)::'


@pattern(ADAPT + r'next$')
def m_next(I, fr, st, args, info, t):
    if info['kind'] == 'unresolved':
        return NotImplemented
    c = I.force(st, args[0])
    if c.tag != 'mref':
        return NotImplemented
    if crate_iter(I, st, c):
        return NotImplemented
    return [(NONE if x is None else some(x), s) for x, _, s in it_next(I, fr, st, c, t)]


def crate_iter(I, st, c):
    v = I.force(st, I.load(st, c.a[0], c.a[1]))
    while v.tag == 'mref':
        v = I.force(st, I.load(st, v.a[0], v.a[1]))
    return not (v.tag in ('it', 'opq', 'sym') or (v.tag == 'adt' and v.a[0].startswith('std::ops::Range')))


@pattern(ADAPT + r'next_back$')
def m_next_back(I, fr, st, args, info, t):
    if info['kind'] == 'unresolved':
        return NotImplemented
    c = I.force(st, args[0])
    if c.tag != 'mref' or crate_iter(I, st, c):
        return NotImplemented
    return [(NONE if x is None else some(x), s) for x, _, s in it_next_back(I, fr, st, c, t)]


@pattern(r'IntoIterator(?:>)?::into_iter$')
def m_into_iter(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    if v.tag == 'it' or v.tag == 'mref' and not info['path'].startswith('<&') or (v.tag == 'adt' and v.a[0].startswith('std::ops::Range')):
        return v
    if v.tag in ('ref', 'slice', 'vec', 'arr', 'wire'):
        return vec_into_iter(I, fr, st, args, info, t)
    if v.tag == 'map':
        return map_seq(I, st, v, 'into_iter', t)
    if v.tag == 'adt' and v.a[0] == OPTION:
        return mk('it', 'opt', mk('E', v.a[2][0]) if v.a[1] == 1 else UNIT)
    return NotImplemented


@pattern(r'^std::option::Option::(iter|into_iter)$')
def opt_iter(I, fr, st, args, info, t):
    v = I.force(st, args[0])
    isref = v.tag == 'ref'
    if isref:
        v = I.force(st, v.a[0])
    if v.tag == 'sym':
        v = I.expand(st, v)
    if v.tag != 'adt':
        return NotImplemented
    if v.a[1] == 0:
        return mk('it', 'opt', UNIT)
    return mk('it', 'opt', mk('E', mk('ref', v.a[2][0]) if isref else v.a[2][0]))


@pattern(ADAPT + r'(map|filter|zip|enumerate|skip|take|rev|copied|cloned|fuse|by_ref|chain|size_hint|peekable|step_by)$')
def m_adapt(I, fr, st, args, info, t):
    if info['kind'] == 'unresolved':
        return NotImplemented
    name = info['path'].rsplit('::', 1)[1]
    v = I.force(st, args[0])
    if name == 'by_ref':
        return v
    if name == 'size_hint':
        v = I.force(st, target(I, st, v))
        n = it_len(I, st, v)
        if n is None:
            return NotImplemented
        return tup(n, some(n))
    if not is_iter(v):
        return NotImplemented
    if name in ('copied', 'cloned'):
        return mk('it', 'copied', v)
    if name in ('rev', 'fuse'):
        return mk('it', name, v)
    if name in ('map', 'filter'):
        return mk('it', name, v, args[1])
    if name == 'enumerate':
        return mk('it', 'enumerate', v, ZERO)
    if name == 'take':
        return mk('it', 'take', v, I.force(st, args[1]))
    if name in ('zip', 'chain'):
        o = I.force(st, args[1])
        if not is_iter(o):
            if o.tag in ('ref', 'slice', 'vec', 'arr', 'wire'):
                o = vec_into_iter(I, fr, st, [o], info, t)
            else:
                return NotImplemented
        return mk('it', name, v, o)
    if name == 'skip':
        return it_skip(I, st, v, I.force(st, args[1]))
    return NotImplemented


def it_skip(I, st, v, n):
    if v.tag == 'it' and v.a[0] == 'mapseq':
        _, m, pos, end, mode, kty, vty = v.a
        if I.decide(st, p_ge(sub(sub(end, pos), n))):
            return mk('it', 'mapseq', m, add(pos, n), end, mode, kty, vty)
        return mk('it', 'mapseq', m, end, end, mode, kty, vty)
    if v.tag == 'it' and v.a[0] == 'seq':
        _, parts, pos, end, mode = v.a
        if I.decide(st, p_ge(sub(sub(end, pos), n))):
            return mk('it', 'seq', parts, add(pos, n), end, mode)
        return mk('it', 'seq', parts, end, end, mode)
    if v.tag == 'it' and v.a[0] in ('copied', 'fuse'):
        r = it_skip(I, st, v.a[1], n)
        return r if r is NotImplemented else mk('it', v.a[0], r)
    if v.tag == 'it' and v.a[0] == 'enumerate':
        r = it_skip(I, st, v.a[1], n)
        return r if r is NotImplemented else mk('it', 'enumerate', r, add(v.a[2], n))
    if v.tag == 'it' and v.a[0] == 'zip':
        a, b = it_skip(I, st, v.a[1], n), it_skip(I, st, v.a[2], n)
        return NotImplemented if a is NotImplemented or b is NotImplemented else mk('it', 'zip', a, b)
    if v.tag == 'adt' and v.a[0].endswith('::Range'):
        a, b = I.force(st, v.a[2][0]), I.force(st, v.a[2][1])
        if I.decide(st, p_ge(sub(sub(b, a), n))):
            return mk('adt', v.a[0], 0, (add(a, n), b))
        return mk('adt', v.a[0], 0, (b, b))
    return NotImplemented


def drain_loop(I, fr, st, it, init, step, t, name, ex=None):
    """Run an internal iteration as an abstract loop.

    `step(s, acc, item)` returns [(kind, value, state)] with kind 'back' (value is the new accumulator)
    or 'ret'. Returns [(kind, value, state)]: ('end', acc, st) or ('ret', v, st)."""
    key = (name, fr.inst if fr else -1, t.get('s') if t else None, len(I.stack))
    ci, ca = ('gl', 'it') + key, ('gl', 'acc') + key
    st = st.copy()
    st.mem[ci] = it
    st.mem[ca] = init

    def body(s):
        out = []
        for x, i2, s2 in multi(I, s, lambda z: it_next(I, fr, z, z.mem[ci], t)):
            s2.mem[ci] = i2
            if x is None:
                out.append(('exit', None, s2))
                continue
            for k, v, s3 in multi(I, s2, lambda z: step(z, z.mem[ca], x)):
                if k == 'back':
                    s3.mem[ca] = v
                out.append((k, v, s3))
        return out

    res = []
    for k, v, s in I._loops.run_loop(I, ('gl',) + key, st, body, None):
        acc = s.mem.pop(ca)
        s.mem.pop(ci, None)
        res.append(('end', acc, s) if k == 'exit' else (k, v, s))
    return res


def collect_into(I, fr, st, it, t, kind, path, init=None):
    """Collect into a vector or a map."""
    def step(s, acc, x):
        if kind == 'vec':
            return [('back', mk('vec', acc.a[0] + (mk('E', x),)), s)]
        x = I.force(s, x)
        kv = x.a[0] if x.tag == 'tup' else (I.field(s, x, 0), I.field(s, x, 1))
        return [('back', mk('map', acc.a[0], acc.a[1], acc.a[2] + (mk('E', tup(INS, kv[0], kv[1])),)), s)]
    if init is None:
        init = mk('vec', ()) if kind == 'vec' else mk('map', path, mk('empty'), ())
    # collecting an untouched sequence is the sequence
    if kind == 'vec' and it.tag == 'it' and it.a[0] == 'seq' and it.a[4] == 'val':
        _, parts, pos, end, _m = it.a
        return [(mk('vec', init.a[0] + I.slice_parts(st, parts, pos, sub(end, pos))), st)]
    return [(acc, s) for _k, acc, s in drain_loop(I, fr, st, it, init, step, t, 'collect')]


def deref_iter(I, st, v):
    return v


@pattern(ADAPT + r'collect$|as std::iter::FromIterator<.*>>::from_iter$|^std::iter::FromIterator::from_iter$')
def m_collect(I, fr, st, args, info, t):
    if info['kind'] == 'unresolved':
        return NotImplemented
    T = dty(I, t)
    it = I.force(st, args[0])
    if not is_iter(it):
        if it.tag in ('slice', 'vec', 'arr'):
            it = vec_into_iter(I, fr, st, [it], info, t)
        else:
            return NotImplemented
    t2 = dict(t)
    t2['dty'] = None
    if T['k'] != 'adt':
        return NotImplemented
    if T['path'] == 'std::vec::Vec':
        return take_fast(I, fr, st, it) or collect_into(I, fr, st, it, t2, 'vec', None)
    if T['path'] in MAPS:
        return collect_into(I, fr, st, it, t2, 'map', T['path'])
    if T['path'] in (RESULT, OPTION):
        a = I.ty_args(T)
        inner = I.T[a[0]]
        if inner['k'] != 'adt' or inner['path'] != 'std::vec::Vec':
            return NotImplemented
        good = 0 if T['path'] == RESULT else 1

        def step(s, acc, x):
            v = I.variant_of(s, x)
            x = I.force(s, x)
            if v == good:
                return [('back', mk('vec', acc.a[0] + (mk('E', I.field(s, x, 0, v)),)), s)]
            return [('ret', NONE if good == 1 else err(I.field(s, x, 0, v)), s)]
        out = []
        for k, v, s in drain_loop(I, fr, st, it, mk('vec', ()), step, t2, 'collect'):
            out.append((mk('adt', T['path'], good, (v,)), s) if k == 'end' else (v, s))
        return out
    return NotImplemented


def take_fast(I, fr, st, it):
    """Taking n items of a sequence behind a mutable reference."""
    if it.tag == 'it' and it.a[0] == 'take' and it.a[1].tag == 'mref':
        cell, path = it.a[1].a
        inner = I.force(st, I.load(st, cell, path))
        if inner.tag == 'it' and inner.a[0] == 'seq' and inner.a[4] == 'val':
            _, parts, pos, end, mode = inner.a
            n = it.a[2]
            ln = sub(end, pos)
            if not I.decide(st, p_ge(sub(ln, n))):
                n = ln
            I.store(st, cell, path, mk('it', 'seq', parts, add(pos, n), end, mode))
            return [(mk('vec', I.slice_parts(st, parts, pos, n)), st)]
    if it.tag == 'it' and it.a[0] == 'take' and it.a[1].tag == 'it' and it.a[1].a[0] == 'seq' and it.a[1].a[4] == 'val':
        _, parts, pos, end, mode = it.a[1].a
        n = it.a[2]
        ln = sub(end, pos)
        if not I.decide(st, p_ge(sub(ln, n))):
            n = ln
        return [(mk('vec', I.slice_parts(st, parts, pos, n)), st)]
    return None


@pattern(r'^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$|^std::iter::Extend::extend$|^<std::collections::.*Map<.*> as std::iter::Extend<.*>>::extend$')
def m_extend(I, fr, st, args, info, t):
    if info['kind'] == 'unresolved':
        return NotImplemented
    c, p = self_loc(I, st, args[0])
    it = I.force(st, args[1])
    if not is_iter(it):
        if it.tag in ('slice', 'vec', 'arr', 'ref'):
            it = vec_into_iter(I, fr, st, [it], info, t)
        else:
            if it.tag == 'sym':
                it = I.expand(st, it)
            if it.tag != 'adt' or it.a[0] != OPTION:
                return NotImplemented
            if it.a[1] == 0:
                return UNIT
            it = mk('it', 'opt', mk('E', it.a[2][0]))
    v = I.force(st, I.load(st, c, p))
    t2 = dict(t)
    t2['dty'] = None
    out = []
    for acc, s in collect_into(I, fr, st, it, t2, 'map' if v.tag == 'map' else 'vec', None, v):
        I.store(s, c, p, acc)
        out.append((UNIT, s))
    return out


@pattern(ADAPT + r'(fold|try_fold|for_each|try_for_each|count|last|sum|product|any|all|position|find|find_map|min|max|nth)$')
def m_fold(I, fr, st, args, info, t):
    if info['kind'] == 'unresolved':
        return NotImplemented
    name = info['path'].rsplit('::', 1)[1]
    it = I.force(st, args[0])
    byref = it.tag == 'mref'
    if not is_iter(it):
        return NotImplemented
    t2 = dict(t)
    t2['dty'] = None
    if name == 'count':
        n = it_len(I, st, it)
        if n is not None:
            return n
        return NotImplemented
    if name in ('fold', 'try_fold'):
        f = args[2]
        init = args[1]
        if name == 'fold':
            def step(s, acc, x):
                return [('back', v, s2) for v, _f, s2 in call_fn_value(I, fr, s, f, [acc, x], t)]
            return [(v, s) for _k, v, s in drain_loop(I, fr, st, it, init, step, t2, name)]
        T = dty(I, t)
        if T['k'] != 'adt' or T['path'] not in (OPTION, RESULT, 'std::ops::ControlFlow'):
            return NotImplemented
        good = 1 if T['path'] == OPTION else 0

        def step2(s, acc, x):
            out = []
            for v, _f, s2 in call_fn_value(I, fr, s, f, [acc, x], t):
                for r in multi(I, s2, lambda z: after(z, v)):
                    out.append(r)
            return out

        def after(z, v):
            var = I.variant_of(z, v)
            v = I.force(z, v)
            if var == good:
                return [('back', I.field(z, v, 0, var), z)]
            return [('ret', v, z)]
        return [(mk('adt', T['path'], good, (v,)) if k == 'end' else v, s)
                for k, v, s in drain_loop(I, fr, st, it, init, step2, t2, name)]
    if name == 'for_each':
        def step3(s, acc, x):
            return [('back', UNIT, s2) for _v, _f, s2 in call_fn_value(I, fr, s, args[1], [x], t)]
        return [(UNIT, s) for _k, v, s in drain_loop(I, fr, st, it, UNIT, step3, t2, name)]
    if name in ('sum', 'product'):
        rg = I.P.ty_range(t['dty'])
        if rg is None:
            return NotImplemented

        def step4(s, acc, x):
            x = I.force(s, x)
            if x.tag == 'ref':
                x = I.force(s, x.a[0])
            e = add(acc, x) if name == 'sum' else I.mul(s, acc, x)
            lo, hi = trange(*rg)
            a, b = s.facts.range(e)
            if a >= lo and b <= hi:
                return [('back', e, s)]
            if I.decide(s, p_ge(addc(neg(e), hi))):
                return [('back', e, s)]
            I.panic(fr, s, t, 'attempt to %s with overflow' % ('add' if name == 'sum' else 'multiply'))
            return []
        return [(v, s) for _k, v, s in drain_loop(I, fr, st, it, ZERO if name == 'sum' else ONE, step4, t2, name)]
    if name in ('any', 'all'):
        f = args[1]

        def step5(s, acc, x):
            out = []
            for v, _f, s2 in call_fn_value(I, fr, s, f, [x], t):
                def dec(z, v=v):
                    d = I.decide(z, I.force(z, v))
                    if d == (name == 'any'):
                        return [('ret', name == 'any', z)]
                    return [('back', UNIT, z)]
                out += multi(I, s2, dec)
            return out
        return [((name == 'all') if k == 'end' else v, s)
                for k, v, s in drain_loop(I, fr, st, it, UNIT, step5, t2, name)]
    if name == 'position':
        f = args[1]

        def step6(s, acc, x):
            out = []
            for v, _f, s2 in call_fn_value(I, fr, s, f, [x], t):
                def dec(z, v=v):
                    if I.decide(z, I.force(z, v)):
                        return [('ret', some(acc), z)]
                    return [('back', addc(acc, 1), z)]
                out += multi(I, s2, dec)
            return out
        return [(NONE if k == 'end' else v, s) for k, v, s in drain_loop(I, fr, st, it, ZERO, step6, t2, name)]
    if name in ('find', 'find_map'):
        f = args[1]

        def step7(s, acc, x):
            out = []
            arg = x if name == 'find_map' else mk('ref', x)
            for v, _f, s2 in call_fn_value(I, fr, s, f, [arg], t):
                def dec(z, v=v):
                    if name == 'find':
                        return [('ret', some(x), z)] if I.decide(z, I.force(z, v)) else [('back', UNIT, z)]
                    return [('ret', I.force(z, v), z)] if I.variant_of(z, v) == 1 else [('back', UNIT, z)]
                out += multi(I, s2, dec)
            return out
        return [(NONE if k == 'end' else v, s)
                for k, v, s in drain_loop(I, fr, st, it, UNIT, step7, t2, name)]
    if name == 'last' and it.tag == 'it' and it.a[0] == 'seq':
        return [(NONE if x is None else some(x), s) for x, _i, s in it_next_back(I, fr, st, it, t)]
    if name == 'nth' and byref:
        n = I.force(st, args[1])
        inner = I.force(st, I.load(st, it.a[0], it.a[1]))
        r = it_skip(I, st, inner, n)
        if r is NotImplemented:
            return NotImplemented
        I.store(st, it.a[0], it.a[1], r)
        return [(NONE if x is None else some(x), s) for x, _i, s in multi(I, st, lambda z: it_next(I, fr, z, it, t))]
    return NotImplemented


@pattern(r'^std::iter::(?:once|empty)$')
def iter_once(I, fr, st, args, info, t):
    return mk('it', 'opt', mk('E', args[0]) if args else UNIT)


@pattern(r'^std::iter::repeat_n$')
def iter_repeat_n(I, fr, st, args, info, t):
    n = I.force(st, args[1])
    return mk('it', 'seq', (mk('Rep', args[0], n),), ZERO, n, 'val')


@pattern(r'^std::iter::repeat$')
def iter_repeat(I, fr, st, args, info, t):
    n = of_atom(atom(0, INF, 'infinite'))
    return mk('it', 'seq', (mk('Rep', args[0], const(1 << 190)),), ZERO, const(1 << 190), 'val')


@pattern(r'^std::slice::(chunks|chunks_exact)$')
def slice_chunks(I, fr, st, args, info, t):
    return NotImplemented


@pattern(r'^std::array::from_fn$|^std::convert::.*TryFrom<&\[T\]>.*try_from$|^std::array::try_from$')
def array_try_from(I, fr, st, args, info, t):
    T = dty(I, t)
    if T['k'] == 'adt' and T['path'] == RESULT and args:
        o = I.T[I.ty_args(T)[0]]
        w = I.force(st, args[0])
        if o['k'] == 'array' and w.tag in ('wire', 'slice'):
            n = o['len']
            if not I.decide(st, p_eq(addc(I.length(st, w), -n))):
                return err(mk('opq', 'TryFromSliceError'))
            return ok(mk('arr', tuple(elem_at(I, st, w, const(i)) for i in range(n))))
    return NotImplemented
