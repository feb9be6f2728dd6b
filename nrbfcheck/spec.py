"""MS-NRBF records as specifications for walk.W."""
from .dom import ONE, ZERO, add, addc, atom, batom, const, of_atom, p_b, p_eq, p_ge, p_ne, p_not, sub, bits_lin
from .walk import Reject

RECORD = {'SerializedStreamHeader': 0, 'ClassWithId': 1, 'SystemClassWithMembers': 2, 'ClassWithMembers': 3,
          'SystemClassWithMembersAndTypes': 4, 'ClassWithMembersAndTypes': 5, 'BinaryObjectString': 6,
          'BinaryArray': 7, 'MemberPrimitiveTyped': 8, 'MemberReference': 9, 'ObjectNull': 10, 'MessageEnd': 11,
          'BinaryLibrary': 12, 'ObjectNullMultiple256': 13, 'ObjectNullMultiple': 14, 'ArraySinglePrimitive': 15,
          'ArraySingleObject': 16, 'ArraySingleString': 17, 'BinaryMethodCall': 21, 'BinaryMethodReturn': 22}

BINARY_TYPE = {0: 'Primitive', 1: 'String', 2: 'Object', 3: 'SystemClass', 4: 'Class', 5: 'ObjectArray',
               6: 'StringArray', 7: 'PrimitiveArray'}
PRIMITIVE = {1: 'Boolean', 2: 'Byte', 3: 'Char', 5: 'Decimal', 6: 'Double', 7: 'Int16', 8: 'Int32', 9: 'Int64',
             10: 'SByte', 11: 'Single', 12: 'TimeSpan', 13: 'DateTime', 14: 'UInt16', 15: 'UInt32', 16: 'UInt64',
             17: 'Null', 18: 'String'}
ARRAY_TYPE = {0: 'Single', 1: 'Jagged', 2: 'Rectangular', 3: 'SingleOffset', 4: 'JaggedOffset',
              5: 'RectangularOffset'}

# name -> (bytes, signed)
INTS = {'Byte': (1, False), 'Int16': (2, True), 'Int32': (4, True), 'Int64': (8, True), 'SByte': (1, True),
        'UInt16': (2, False), 'UInt32': (4, False), 'UInt64': (8, False), 'TimeSpan': (8, True)}


def I(l):
    return ('int', l)


def fld(spec, *tags):
    return (spec, frozenset(tags))


def tag(w, name, tags=()):
    w.need(p_ge(addc(sub(w.end, w.pos), -1)), {'C34'}, '%s record is missing' % name, 'mismatch')
    a = w.u(1, name)
    w.need(p_eq(addc(of_atom(a), -RECORD[name])), {'C03', 'C02', 'C20'} | set(tags),
           'type byte is not %d (%s)' % (RECORD[name], name), 'mismatch')


def table(w, tab, tags, what):
    a = w.u(1, what)
    if w.st.facts.value(of_atom(a)) is None:
        m = 0
        for v in tab:
            m |= 1 << v
        d = w.st.facts.get(a)
        if d & ~m:
            if not d & m:
                raise Reject({'C04'} | set(tags), '%s is not a known code' % what)
            # known codes or not
            from .interp import Split
            for s in w.open_sels():
                from .walk import sel_atoms
                if a in sel_atoms(s):
                    w.split_sel(s)
            raise Split([[('dom', a, d & m)], [('dom', a, d & ~m)]])
    for v, n in tab.items():
        if w.st.facts.decide(p_eq(addc(of_atom(a), -v))) is True:
            return n
    c = w.st.facts.value(of_atom(a))
    if c is not None:
        raise Reject({'C04'} | set(tags), '%s %d is not a known code' % (what, c))
    from .walk import sel_atoms
    from .interp import Split
    for s in w.open_sels():
        if a in sel_atoms(s):
            w.split_sel(s)
    d = w.st.facts.get(a)
    raise Split([[('dom', a, 1 << v)] for v in tab if (d >> v) & 1])


def positive(w, what, tags=()):
    n = w.num(4, True, what)
    w.need(p_ge(addc(n, -1)), {'C08'} | set(tags), '%s is not positive' % what)
    return n


def non_negative(w, what, tags=()):
    n = w.num(4, True, what)
    w.need(p_ge(n), {'C08'} | set(tags), '%s is negative' % what)
    return n


# ------------------------------------------------------------ primitives

def char(w):
    w.avail(ONE, 'a character')
    a = of_atom(atom(0, 255, 'rd', w.base, w.pos, 1, 'u'))
    if w.when(p_ge(addc(a, -0xF0))):
        n = 4
    elif w.when(p_ge(addc(a, -0xE0))):
        n = 3
    elif w.when(p_ge(addc(a, -0xC0))):
        n = 2
    else:
        n = 1
    T = {'C06', 'C05'}
    if n == 1:
        w.need(p_ge(addc(sub(const(0x7F), a), 0)), T, 'the first byte does not start a character')
    else:
        w.avail(const(n), 'a character')
        w.link(batom('utf8', w.base, w.pos, const(n)))
        w.need(p_b(batom('utf8', w.base, w.pos, const(n))), T, 'it is not a valid UTF-8 sequence of %d bytes' % n)
    r = ('char', w.base, w.pos, const(n))
    w.pos = addc(w.pos, n)
    return r


def decimal(w):
    _, b, o, n = s = w.string({'C06', 'C05'}, 'the decimal')
    from .dom import mk
    w.need(p_b(batom('decimal', 'from_str', mk('str', 'w', b, o, n))), {'C06', 'C05'},
           'the decimal string is not a decimal number')
    return ('dec', b, o, n)


def primitive(w, name):
    """The value of a primitive type at the current position."""
    if name == 'Boolean':
        a = of_atom(w.u(1, 'a boolean'))
        w.need(p_ge(addc(sub(ONE, a), 0)), {'C06', 'C05'}, 'the boolean is neither 0 nor 1')
        return ('bool', p_eq(addc(a, -1)))
    if name == 'Char':
        return char(w)
    if name == 'Decimal':
        return decimal(w)
    if name in ('Double', 'Single'):
        n = 8 if name == 'Double' else 4
        w.avail(const(n), name)
        r = ('f', w.base, w.pos, n)
        w.pos = addc(w.pos, n)
        return r
    if name == 'DateTime':
        return I(w.num(8, True, 'a date-time'))
    n, s = INTS[name]
    return I(w.num(n, s, name))


def prim_enum(w, name):
    """As primitive, as variant of the record's own enumeration."""
    return ('enum', name, [primitive(w, name)])


def value_with_code(w):
    t = table(w, PRIMITIVE, {'C05', 'C11'}, 'the primitive type code')
    if t == 'Null':
        return ('enum', 'Null', [])
    if t == 'String':
        return ('enum', 'String', [w.string({'C11'}, 'the value')])
    return prim_enum(w, t)


def string_value(w, what):
    a = of_atom(w.u(1, what))
    w.need(p_eq(addc(a, -18)), {'C03', 'C11', 'C04'}, 'the type code of %s is not 18 (String)' % what)
    return w.string({'C11'}, what)


def array_of_values(w):
    n = non_negative(w, 'the number of values', {'C11', 'C15'})
    return w.rep(n, lambda w, i: value_with_code(w), {'C11', 'C03'}, 'inline values')


# ------------------------------------------------------------ common structures

def class_info(w, W=False):
    oid = positive(w, 'the object ID')
    name = w.string({'C03', 'C12'}, 'the class name')
    n = non_negative(w, 'the member count', {'C12', 'C15'})
    names = w.rep(n, lambda w, i: w.string({'C12'}, 'a member name'), {'C03', 'C12'}, 'member names')
    return n, ('rec', {'object_id': fld(I(oid), 'C03', 'C17'), 'name': fld(name, 'C12'),
                       'member_names': fld(names, 'C12')})


def additional_info(w, t):
    """The additional type information of a binary type: nothing, or one value."""
    if t in ('Primitive', 'PrimitiveArray'):
        tab = PRIMITIVE if t == 'PrimitiveArray' else {k: v for k, v in PRIMITIVE.items() if k not in (17, 18)}
        return ('opt', ('enum', 'Primitive', [('enum', table(w, tab, {'C14', 'C05'}, 'the primitive type code'), [])]))
    if t == 'SystemClass':
        return ('opt', ('enum', 'SystemClass', [w.string({'C14'}, 'the class name')]))
    if t == 'Class':
        name = w.string({'C14'}, 'the class name')
        lib = positive(w, 'the library ID', {'C14', 'C19'})
        return ('opt', ('enum', 'Class', [('rec', {'type_name': fld(name, 'C14'), 'library_id': fld(I(lib), 'C14')})]))
    return ('opt', None)


def member_type_info(w, n):
    T = {'C03', 'C04', 'C14'}
    types0 = w.pos

    def binary_type(w, i):
        return ('enum', table(w, BINARY_TYPE, {'C14'}, 'the binary type code'), [])

    types = w.rep(n, binary_type, T, 'binary types')

    def info(w, i):
        save = w.pos
        w.pos = add(types0, i)
        t = table(w, BINARY_TYPE, {'C14'}, 'the binary type code')
        w.pos = save
        return additional_info(w, t)

    infos = w.rep(n, info, T, 'additional type infos')
    return ('rec', {'binary_type_enums': fld(types, 'C04', 'C14'), 'additional_infos': fld(infos, 'C04', 'C14')})


def array_info(w):
    oid = positive(w, 'the object ID')
    n = non_negative(w, 'the length', {'C15'})
    return ('rec', {'object_id': fld(I(oid), 'C03', 'C17'), 'length': fld(I(n), 'C15')})


# ------------------------------------------------------------ records

def serialization_header(w):
    T = {'C02', 'C03'}
    tag(w, 'SerializedStreamHeader')
    root = non_negative(w, 'the root ID', {'C22', 'C02'})
    head = w.num(4, True, 'the header ID')
    major = w.num(4, True, 'the major version')
    w.need(p_eq(addc(major, -1)), T, 'the major version is not 1')
    minor = w.num(4, True, 'the minor version')
    w.need(p_eq(minor), T, 'the minor version is not 0')
    r = ('opt', None) if w.when(p_eq(root)) else ('opt', I(root))
    return ('rec', {'root_id': fld(r, 'C22'), 'header_id': fld(I(head)), 'major_version': fld(I(major)),
                    'minor_version': fld(I(minor))})


def class_with_id(w):
    tag(w, 'ClassWithId')
    oid = positive(w, 'the object ID')
    mid = positive(w, 'the metadata ID', {'C13'})
    w.need(p_ne(sub(oid, mid)), {'C08', 'C13'}, 'the metadata ID is the object ID')
    return ('rec', {'object_id': fld(I(oid), 'C17'), 'metadata_id': fld(I(mid), 'C13')})


def class_record(name, types, library):
    def spec(w):
        tag(w, name)
        n, ci = class_info(w)
        r = {'class_info': fld(ci)}
        if types:
            r['member_type_info'] = fld(member_type_info(w, n))
        if library:
            r['library_id'] = fld(I(positive(w, 'the library ID', {'C19'})), 'C19')
        return ('rec', r)
    return spec


def array_single(name):
    def spec(w):
        tag(w, name, {'C15'})
        r = {'array_info': fld(array_info(w))}
        if name == 'ArraySinglePrimitive':
            t = table(w, {k: v for k, v in PRIMITIVE.items() if k not in (17, 18)}, {'C05'}, 'the primitive type code')
            r['primitive_type'] = fld(('enum', t, []), 'C04', 'C05')
        return ('rec', r)
    return spec


def binary_array(w):
    tag(w, 'BinaryArray', {'C15', 'C16'})
    oid = positive(w, 'the object ID')
    kind = table(w, ARRAY_TYPE, {'C16'}, 'the binary array type code')
    rank = non_negative(w, 'the rank', {'C16'})
    w.may(p_ge(sub(const(32), rank)))
    # every dimension is a level of nesting of the value
    w.need(p_ge(sub(const(4096), rank)), {'C32'}, 'the rank of an array is not bounded')
    w.may(p_ge(addc(rank, -1)))
    if not kind.startswith('Rect'):
        w.may(p_eq(addc(rank, -1)))
    lens = w.rep(rank, lambda w, i: I(non_negative(w, 'a length', {'C15', 'C16'})), {'C16', 'C15', 'C03'}, 'lengths')
    lows = ('opt', None)
    if kind.endswith('Offset'):
        def low(w, i):
            n = w.num(4, True, 'a lower bound')
            w.may(p_ge(n))
            return I(n)
        lows = ('opt', w.rep(rank, low, {'C16', 'C03'}, 'lower bounds'))
    t = table(w, BINARY_TYPE, {'C14'}, 'the binary type code')
    info = additional_info(w, t)
    return ('rec', {'object_id': fld(I(oid), 'C17'), 'binary_array_type_enum': fld(('enum', kind, []), 'C16', 'C04'),
                    'lengths': fld(lens, 'C15', 'C16'), 'lower_bounds': fld(lows, 'C16'),
                    'type_enum': fld(('enum', t, []), 'C04', 'C14'),
                    'additional_type_info': fld(info, 'C04', 'C14')})


def member_primitive_typed(w):
    tag(w, 'MemberPrimitiveTyped', {'C05'})
    t = table(w, {k: v for k, v in PRIMITIVE.items() if k not in (17, 18)}, {'C05'}, 'the primitive type code')
    return prim_enum(w, t)


def member_primitive_untyped(w):
    # the type is the second argument
    t = w.vname(w.arg(1))
    if t in ('Null', 'String'):
        raise Reject({'C05', 'C14'}, 'primitive values of type %s do not exist' % t)
    return prim_enum(w, t)


def member_reference(w):
    tag(w, 'MemberReference', {'C17'})
    return I(positive(w, 'the reference ID', {'C17'}))


def object_null(w):
    tag(w, 'ObjectNull', {'C15'})
    return None


def object_null_multiple(w):
    tag(w, 'ObjectNullMultiple', {'C15'})
    return I(positive(w, 'the null count', {'C15'}))


def object_null_multiple_256(w):
    tag(w, 'ObjectNullMultiple256', {'C15'})
    n = of_atom(w.u(1, 'the null count'))
    w.need(p_ge(addc(n, -1)), {'C08', 'C15'}, 'the null count is zero')
    return I(n)


def message_end(w):
    tag(w, 'MessageEnd', {'C02'})
    return None


def binary_library(w):
    tag(w, 'BinaryLibrary', {'C19'})
    lid = positive(w, 'the library ID', {'C19'})
    name = w.string({'C19'}, 'the library name')
    return ('rec', {'library_id': fld(I(lid), 'C19'), 'library_name': fld(name, 'C19')})


def binary_object_string(w):
    tag(w, 'BinaryObjectString')
    oid = positive(w, 'the object ID')
    s = w.string({'C05'}, 'the string')
    return ('rec', {'object_id': fld(I(oid), 'C17'), 'value': fld(s, 'C07')})


FLAG = {'NoArgs': 0, 'ArgsInline': 1, 'ArgsIsArray': 2, 'ArgsInArray': 3, 'NoContext': 4, 'ContextInline': 5,
        'ContextInArray': 6, 'MethodSignatureInArray': 7, 'PropertiesInArray': 8, 'NoReturnValue': 9,
        'ReturnValueVoid': 10, 'ReturnValueInline': 11, 'ReturnValueInArray': 12, 'ExceptionInArray': 13,
        'GenericMethod': 15}


def message_flags(w):
    a = w.u(4, 'the message flags')
    T = {'C10', 'C11'}

    def bit(n):
        return bits_lin(a, FLAG[n], 1)

    def total(*ns):
        r = ZERO
        for n in ns:
            r = add(r, bit(n))
        return r

    args = total('NoArgs', 'ArgsInline', 'ArgsIsArray', 'ArgsInArray')
    ctx = total('NoContext', 'ContextInline', 'ContextInArray')
    ret = total('NoReturnValue', 'ReturnValueVoid', 'ReturnValueInline', 'ReturnValueInArray')
    exc, sig = bit('ExceptionInArray'), bit('MethodSignatureInArray')
    for n, s in (('arguments', args), ('context', ctx), ('return', ret)):
        w.need(p_ge(sub(ONE, s)), T, 'the flags contain more than one of the category %s' % n)
    for n, x, y in (('arguments and exception', args, exc), ('return and exception', ret, exc),
                    ('return and signature', ret, sig), ('exception and signature', exc, sig)):
        w.need(p_ge(sub(ONE, add(x, y))), T, 'the flags combine %s' % n)
    return a


def has(w, a, name):
    return w.when(p_eq(addc(bits_lin(a, FLAG[name], 1), -1)))


def message_flags_record(w):
    from .dom import as_signed
    return I(as_signed(message_flags(w), 32))


def binary_method_call(w):
    from .dom import as_signed
    tag(w, 'BinaryMethodCall', {'C11'})
    f = message_flags(w)
    method = string_value(w, 'the method name')
    typ = string_value(w, 'the type name')
    ctx = args = None
    if has(w, f, 'ContextInline'):
        ctx = string_value(w, 'the call context')
    if has(w, f, 'ArgsInline'):
        args = array_of_values(w)
    return ('rec', {'message_enum': fld(I(as_signed(f, 32)), 'C10', 'C11'), 'method_name': fld(method, 'C11', 'C22'),
                    'type_name': fld(typ, 'C11', 'C22'), 'call_context': fld(('opt', ctx), 'C11'),
                    'args': fld(('opt', args), 'C11')})


def binary_method_return(w):
    from .dom import as_signed
    tag(w, 'BinaryMethodReturn', {'C11'})
    f = message_flags(w)
    ret = ctx = args = None
    if has(w, f, 'ReturnValueInline'):
        ret = value_with_code(w)
    if has(w, f, 'ContextInline'):
        ctx = string_value(w, 'the call context')
    if has(w, f, 'ArgsInline'):
        args = array_of_values(w)
    return ('rec', {'message_enum': fld(I(as_signed(f, 32)), 'C10', 'C11'), 'return_value': fld(('opt', ret), 'C11'),
                    'call_context': fld(('opt', ctx), 'C11'), 'args': fld(('opt', args), 'C11')})


# ------------------------------------------------------------ strings

def length_prefixed_string(w):
    """The string parser itself, from bytes."""
    T = {'C07'}
    n = ZERO
    for i in range(5):
        a = w.u(1, 'the length of a string')
        low = bits_lin(a, 0, 7)
        if i == 4:
            w.need(p_ge(sub(const(7), of_atom(a))), T, 'the length prefix is longer than five bytes or exceeds 2^31-1')
            n = add(n, bits_lin(a, 0, 3), 1 << 28)
            break
        n = add(n, low, 1 << (7 * i))
        if not w.when(p_ge(addc(of_atom(a), -128))):
            break
    w.avail(n, 'a string')
    w.link(batom('utf8', w.base, w.pos, n))
    w.need(p_b(batom('utf8', w.base, w.pos, n)), T, 'the string is not valid UTF-8')
    r = ('str', w.base, w.pos, n)
    w.pos = add(w.pos, n)
    return r


def prim_record(name):
    return lambda w: primitive(w, name)


# function suffix -> (specification, what, properties of the record as a whole)
RECORDS = {
    'record::SerializationHeader::parse': (serialization_header, 'SerializationHeader', {'C02', 'C22'}),
    'record::ClassWithId::parse': (class_with_id, 'ClassWithId', {'C13'}),
    'record::ClassWithMembers::parse': (class_record('ClassWithMembers', False, True), 'ClassWithMembers', {'C12'}),
    'record::ClassWithMembersAndTypes::parse': (class_record('ClassWithMembersAndTypes', True, True),
                                                'ClassWithMembersAndTypes', {'C12', 'C14'}),
    'record::SystemClassWithMembers::parse': (class_record('SystemClassWithMembers', False, False),
                                              'SystemClassWithMembers', {'C12'}),
    'record::SystemClassWithMembersAndTypes::parse': (class_record('SystemClassWithMembersAndTypes', True, False),
                                                      'SystemClassWithMembersAndTypes', {'C12', 'C14'}),
    'record::ArraySingleObject::parse': (array_single('ArraySingleObject'), 'ArraySingleObject', {'C15'}),
    'record::ArraySinglePrimitive::parse': (array_single('ArraySinglePrimitive'), 'ArraySinglePrimitive',
                                            {'C15', 'C05'}),
    'record::ArraySingleString::parse': (array_single('ArraySingleString'), 'ArraySingleString', {'C15'}),
    'record::BinaryArray::parse': (binary_array, 'BinaryArray', {'C15', 'C16'}),
    'record::MemberPrimitiveTyped::parse': (member_primitive_typed, 'MemberPrimitiveTyped', {'C05'}),
    'record::MemberPrimitiveUnTyped::parse': (member_primitive_untyped, 'MemberPrimitiveUnTyped', {'C05'}),
    'record::MemberReference::parse': (member_reference, 'MemberReference', {'C17'}),
    'record::ObjectNull::parse': (object_null, 'ObjectNull', {'C15'}),
    'record::ObjectNullMultiple::parse': (object_null_multiple, 'ObjectNullMultiple', {'C15'}),
    'record::ObjectNullMultiple256::parse': (object_null_multiple_256, 'ObjectNullMultiple256', {'C15'}),
    'record::MessageEnd::parse': (message_end, 'MessageEnd', {'C02'}),
    'record::BinaryLibrary::parse': (binary_library, 'BinaryLibrary', {'C19'}),
    'record::BinaryObjectString::parse': (binary_object_string, 'BinaryObjectString', {'C07'}),
    'record::MessageFlags::parse': (message_flags_record, 'MessageFlags', {'C10', 'C11'}),
    'record::ValueWithCode::parse': (value_with_code, 'ValueWithCode', {'C05', 'C11'}),
    'record::StringValueWithCode::parse': (lambda w: string_value(w, 'the string'), 'StringValueWithCode', {'C11'}),
    'record::ArrayOfValueWithCode::parse': (array_of_values, 'ArrayOfValueWithCode', {'C11'}),
    'record::BinaryMethodCall::parse': (binary_method_call, 'BinaryMethodCall', {'C11'}),
    'record::BinaryMethodReturn::parse': (binary_method_return, 'BinaryMethodReturn', {'C11'}),
    'data_type::LengthPrefixedString::parse': (length_prefixed_string, 'LengthPrefixedString', {'C07'}),
    'data_type::Boolean::parse': (prim_record('Boolean'), 'Boolean', {'C05', 'C06'}),
    'data_type::Byte::parse': (prim_record('Byte'), 'Byte', {'C05'}),
    'data_type::Char::parse': (prim_record('Char'), 'Char', {'C05', 'C06'}),
    'data_type::DateTime::parse': (prim_record('DateTime'), 'DateTime', {'C05', 'C09'}),
    'data_type::Decimal::parse': (prim_record('Decimal'), 'Decimal', {'C05', 'C06'}),
    'data_type::Double::parse': (prim_record('Double'), 'Double', {'C05'}),
    'data_type::Int8::parse': (prim_record('SByte'), 'Int8', {'C05'}),
    'data_type::Int16::parse': (prim_record('Int16'), 'Int16', {'C05'}),
    'data_type::Int32::parse': (prim_record('Int32'), 'Int32', {'C05', 'C08'}),
    'data_type::Int64::parse': (prim_record('Int64'), 'Int64', {'C05'}),
    'data_type::Single::parse': (prim_record('Single'), 'Single', {'C05'}),
    'data_type::TimeSpan::parse': (prim_record('TimeSpan'), 'TimeSpan', {'C05', 'C09'}),
    'data_type::UInt16::parse': (prim_record('UInt16'), 'UInt16', {'C05'}),
    'data_type::UInt32::parse': (prim_record('UInt32'), 'UInt32', {'C05'}),
    'data_type::UInt64::parse': (prim_record('UInt64'), 'UInt64', {'C05'}),
}
