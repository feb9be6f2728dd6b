"""Which analyses decide which property."""
from . import build, effects, features, grammar, present, rules, spec, walk, witness
from .interp import Prog, Undecided
from .units import Anchor, Units

SOFT = (Undecided, Anchor)

_dumps = {}
_units = {}


def dump_of(features):
    return _dumps[features]


def units(features='serde'):
    if features not in _units:
        _units[features] = Units(Prog(_dumps[features]))
    return _units[features]


def prepare(jobs):
    """Builds what the jobs need, before they are forked off."""
    need = set()
    for j in jobs:
        need |= set(NEEDS.get(j[0], ('serde',)))
    for f in sorted(need, reverse=True):
        if f not in _dumps:
            try:
                _dumps[f] = build.dump(f)
            except build.BuildError as e:
                if f or 'could not compile `nrbf`' not in str(e):
                    raise
                _broken.append(str(e))
    for f in sorted(_dumps):
        try:
            units(f)
        except SOFT:
            pass
    if '' in need and not _broken:
        _diff.append(features.diff(Prog(_dumps['serde']), Prog(_dumps[''])))


_broken, _diff = [], []
NEEDS = {'features': ('serde', ''), 'interface': ('serde', '')}

COST = {'record::BinaryMethodReturn::parse': 20, 'record::BinaryMethodCall::parse': 8,
        'record::ClassWithMembersAndTypes::parse': 4, 'record::BinaryArray::parse': 4,
        'record::SystemClassWithMembersAndTypes::parse': 4, ('classes', ('lib', 1)): 12, 'classes': 3,
        ('call', 'return', ('lib', 22)): 40, 'message': 5, ('call', 'call', ('lib', 21)): 20, ('call', 'return', ('byte', 22)): 10,
        ('call', 'call', ('byte', 21)): 7, ('referenceable', ('lib', 15)): 10, ('referenceable', ('lib', 7)): 9, 'referenceable': 2}


def cost(j):
    return COST.get(j) or COST.get(j[1:]) or COST.get(' '.join(map(str, j))) or COST.get('::'.join(map(str, j[:2]))) or COST.get(j[-1]) or COST.get(j[0], 1)


def order(jobs):
    return sorted(jobs, key=lambda j: -cost(j))


def same_unit(job):
    """The unit with and without serde: if the code is not the same, the findings have to be."""
    rep = rules.Report('features')
    if _broken:
        return rep
    d = _diff[0]
    if not d.differing:
        return rep
    a, b = run(job, 'serde'), run(job, '')
    walk.Budget.live.clear()
    rep.stats['units compared'] = 1
    rep.stats['obligations'] = sum(r.stats.get('obligations', 0) for r in (a, b))
    rep.undecided = sorted(set(a.undecided + b.undecided))
    if rep.undecided:
        return rep
    for x, y, how in ((a, b, 'with'), (b, a, 'without')):
        other = {(f.fn, f.what) for f in y.findings}
        for f in x.findings:
            if (f.fn, f.what) not in other:
                rep.findings.append(walk.Finding({'C33'}, 'only %s serde: %s' % (how, f.what), f.fn, f.span, f.detail))
    return rep


def interface_unit():
    rep = rules.Report('interface')

    def find(tags, fn, what, span):
        rep.findings.append(walk.Finding(tags, what, fn, span, ''))

    if _broken:
        find({'C33'}, 'nrbf', 'the crate does not compile without serde', _broken[0][-1500:])
        return rep
    d = _diff[0]
    rep.stats['functions'] = d.compared
    rep.stats['differing'] = len(d.differing)
    rep.notes = ['%s differs at %s' % (k, v[0]) for k, v in sorted(d.differing.items())][:40]
    rep.stats['interface'] = features.interface(Prog(_dumps['serde']), Prog(_dumps['']), find)
    rep.stats['obligations'] = d.compared + rep.stats['interface']
    return rep


def run(job, conf='serde'):
    k = job[0]
    if k == 'features':
        return same_unit(job[1:])
    if k == 'interface':
        return interface_unit()
    if k == 'record':
        return rules.record_unit(units(conf), job[1])
    if k == 'member':
        return grammar.member_unit(units(conf), job[1])
    if k == 'classes':
        return grammar.classes_unit(units(conf), job[1])
    if k == 'referenceable':
        return grammar.referenceable_unit(units(conf), job[1])
    if k == 'call':
        return grammar.call_unit(units(conf), job[1], job[2])
    if k == 'message':
        return grammar.message_unit(units(conf))
    if k == 'accessors':
        return present.accessor_unit(units(conf))
    if k == 'from_slice':
        return present.from_slice_unit(units(conf))
    if k == 'present':
        return present.method_unit(units(conf), job[1], job[2])
    if k == 'effects':
        return effects.effects_unit(units(conf))
    if k == 'witness':
        return witness.witness_unit()
    if k == 'stack':
        return effects.stack_unit(units(conf))
    if k == 'conversion':
        return grammar.conversion_units(units(conf))
    raise KeyError(k)


ALL_RECORDS = [('record', s) for s in spec.RECORDS]


def records(*names):
    r = [('record', s) for s in spec.RECORDS if any(n in s for n in names)]
    return r


MEMBERS = [('member', c) for c in grammar.COMBOS]
C5 = (1, 2, 3, 4, 5)
CLASSES = [('classes', ('byte', c)) for c in C5] + [('classes', ('lib', c)) for c in C5] + [('classes', ('other', C5, C5))]

R_ALL, R_LIB = (1, 2, 3, 4, 5, 6, 7, 15, 16, 17), (1, 2, 3, 4, 5, 7, 15, 16, 17)
REFS = ([('referenceable', ('byte', c)) for c in R_ALL] + [('referenceable', ('lib', c)) for c in R_LIB]
        + [('referenceable', ('other', R_ALL, R_LIB))])
R_ARRAYS = [j for j in REFS if j[1][0] == 'other' or j[1][1] in (7, 15, 16, 17)]

CALLS = ([('call', 'call', x) for x in (('byte', 21), ('lib', 21), ('other', (21,), (21,)))]
         + [('call', 'return', x) for x in (('byte', 22), ('lib', 22), ('other', (22,), (22,)))])
MESSAGE = [('message',)]
GRAMMAR = CLASSES + MEMBERS + REFS + CALLS + MESSAGE

PRIMS = [('record', s) for s in spec.RECORDS if s.startswith('data_type::')]

LEVEL = 'other'
AI = ('Abstract interpretation of the compiler\'s MIR (monomorphised, from the current tree), path-sensitive over '
      'symbolic input bytes with exact integer and bit domains; no execution and no solver. ')
REC_RULE = ('Every outcome of the analysed function is compared with the record\'s specification (nrbfcheck/spec.py): '
            'an accepting outcome must be accepted by the specification, end at the same position and carry the same '
            'fields; a rejecting outcome must be rejected by it. Loops are summarised: every iteration must read '
            'exactly one element, for an arbitrary iteration.')

PROPS = {}


def prop(pid, technique, jobs, rule, explanation, note, level=LEVEL, assumptions=()):
    PROPS[pid] = {'technique': technique, 'jobs': jobs if callable(jobs) else (lambda tier, j=list(jobs): j),
                  'rule': rule, 'explanation': AI + explanation if technique.startswith('abstract') else explanation,
                  'note': note, 'level': level, 'assumptions': list(assumptions)}


ABS = 'abstract interpretation of MIR against a declarative record specification'
TRUST = ['the models of core/alloc functions and of nom combinators whose bodies the dump does not descend into '
         '(nrbfcheck/models.py)', 'rustc\'s MIR construction']
NOTE = ('Decides the property for every input, for the functions listed in the evidence. Trusted: the models of standard '
        'library functions, the loop summaries, rustc\'s MIR. A construct the analysis cannot follow is listed as '
        'undecided in the evidence and is not an alarm.')

prop('C03', ABS, ALL_RECORDS + GRAMMAR, REC_RULE,
     'All record parsers and the structures they consist of are analysed from their first byte to their end: type '
     'byte, field order, width, signedness, byte order and end position.', NOTE, assumptions=TRUST)
prop('C04', ABS, ALL_RECORDS + GRAMMAR,
     REC_RULE, 'The decoding of the three code tables is compared with the tables of the specification for all 256 '
     'bytes, in every record that contains such a code.', NOTE, assumptions=TRUST)
prop('C05', ABS, ALL_RECORDS + GRAMMAR + [('conversion',)],
     REC_RULE, 'Each primitive parser and each record with primitive values is compared with the type\'s encoding.',
     NOTE, assumptions=TRUST)
prop('C06', ABS, ALL_RECORDS + MEMBERS,
     REC_RULE, 'The three parsers are compared with the valid encodings; for characters over all first bytes.', NOTE,
     assumptions=TRUST)
prop('C07', ABS, ALL_RECORDS + GRAMMAR, REC_RULE,
     'The string parser is analysed from its bytes, with its prefix loop unrolled as far as the code allows.', NOTE,
     assumptions=TRUST)
prop('C08', ABS, ALL_RECORDS + GRAMMAR, REC_RULE, 'Every numeric field with a restricted domain is compared with its domain.', NOTE,
     assumptions=TRUST)
prop('C10', ABS, records('MessageFlags', 'BinaryMethod') + CALLS, REC_RULE,
     'The flags parser is compared with the consistency rules over all 2^32 flag words, bit by bit.', NOTE,
     assumptions=TRUST)

GR = 'abstract interpretation of MIR against a grammar specification with recursion contracts'
GR_RULE = ('Every outcome of the analysed function, from every kind of beginning, is compared with the grammar '
           'specification (nrbfcheck/grammar.py): what it reads and in which order, what it does to the parser\'s maps, '
           'and which value it yields. Recursive calls are replaced by their contract, which is what is verified for '
           'them elsewhere; loops are summarised and every iteration is compared.')
CM = CLASSES + MEMBERS
prop('C11', GR, records('MessageFlags', 'BinaryMethod', 'ValueWithCode') + GRAMMAR + [('conversion',)], GR_RULE,
     'The two call records with their flags, the array that may follow them, and what of both is delivered.', NOTE,
     assumptions=TRUST)
prop('C02', GR, records('SerializationHeader', 'MessageEnd') + GRAMMAR, GR_RULE,
     'The message from its header to the end of the input, and the records it consists of.', NOTE, assumptions=TRUST)
prop('C12', GR, records('WithMembers', 'ClassWithId') + GRAMMAR, GR_RULE, 'Class instances, members and the records that define objects.', NOTE, assumptions=TRUST)
prop('C13', GR, records('WithMembers', 'ClassWithId') + GRAMMAR, GR_RULE, 'Class instances, from their type byte or a library in front of it.', NOTE,
     assumptions=TRUST)
prop('C14', GR, records('WithMembersAndTypes', 'MemberPrimitive') + GRAMMAR, GR_RULE, 'Members of every declared type, and the type a member is read with.', NOTE,
     assumptions=TRUST)
prop('C15', GR, records('WithMembers', 'Array', 'ObjectNull') + GRAMMAR, GR_RULE, 'Element loops of class instances and of all kinds of arrays.', NOTE,
     assumptions=TRUST)
prop('C16', GR, records('record::BinaryArray') + GRAMMAR, GR_RULE,
     'Arrays of arbitrary rank: their lengths, the product of the lengths and the splitting into rows.', NOTE,
     assumptions=TRUST)
prop('C17', GR, GRAMMAR, GR_RULE, 'Every place where a reference is resolved or an object is registered.', NOTE,
     assumptions=TRUST)
prop('C18', GR, GRAMMAR, GR_RULE, 'Every place where a library, class or object is registered.', NOTE,
     assumptions=TRUST)
prop('C19', GR, records('WithMembers', 'BinaryLibrary') + GRAMMAR, GR_RULE, 'Every place where a library is looked up or delivered.', NOTE, assumptions=TRUST)
prop('C21', GR, ALL_RECORDS + GRAMMAR, GR_RULE, 'Every accepting path of every parser: none of them passes an error in a '
     'record that was recognised.', NOTE, assumptions=TRUST)
prop('C22', GR, records('SerializationHeader', 'BinaryMethod') + GRAMMAR, GR_RULE,
     'The message and its calls, and the registration of objects.', NOTE, assumptions=TRUST)
prop('C34', GR, ALL_RECORDS + GRAMMAR, GR_RULE, 'Every accepting path of every parser: all bytes it depends on are '
     'inside the input, whose length is arbitrary, and the message ends in an end record.', NOTE, assumptions=TRUST)
prop('C20', GR, GRAMMAR, GR_RULE, 'The choice between the alternatives, and the maps left when none applies.', NOTE,
     assumptions=TRUST)
prop('C35', GR, GRAMMAR, GR_RULE + ' An object may not be removed from the objects when a reference to it is resolved.',
     'Every place where an object is registered and where a reference is resolved.', NOTE, assumptions=TRUST)

SERDE = [('from_slice',)] + [('present', w, m) for w in ('message', 'value') for m in present.METHODS]
PR = 'abstract interpretation of MIR with an arbitrary visitor against a presentation specification'
PR_RULE = ('Every Deserializer method of a message and of a value is analysed with an arbitrary visitor: which visit method '
           'it calls, with which value, and what it makes of the result (nrbfcheck/present.py). A sequence is handed to a '
           'visitor that takes an arbitrary number of elements (an abstract loop); a map is compared entry by entry, for an '
           'arbitrary entry.')
PR_NOTE = NOTE + ' Also trusted: serde\'s MapDeserializer and serde\'s own Deserialize implementations of the primitives.'
prop('C09', 'abstract interpretation of MIR against a bit-level specification', [('accessors',)],
     'Every outcome of the accessors is compared with the bits of the number.', 'The public accessors of date-times and '
     'time spans, for all numbers.', NOTE, assumptions=TRUST)
prop('C23', PR, SERDE, PR_RULE, 'All 31 methods of both types, for a value of every kind.', PR_NOTE, assumptions=TRUST)
prop('C24', PR, SERDE, PR_RULE, 'Optional targets, calls and returns, and the entry point from_slice.', PR_NOTE, assumptions=TRUST)
prop('C25', PR, SERDE, PR_RULE, 'Objects of the twelve system classes, with any members.', PR_NOTE, assumptions=TRUST)
prop('C26', PR, SERDE, PR_RULE, 'Arrays and generic lists.', PR_NOTE, assumptions=TRUST)
prop('C27', PR, SERDE, PR_RULE, 'All other objects, and all objects for a struct.', PR_NOTE, assumptions=TRUST)
prop('C01', 'abstract interpretation of MIR: reachability of panics', ALL_RECORDS + GRAMMAR + SERDE + [('conversion',), ('accessors',)],
     'No path of an analysed function reaches a panic (overflow check, bounds check, unwrap, expect, explicit panic, '
     'unreachable) with consistent facts.', 'All parsers, accessors and Deserializer methods, with everything they call that '
     'has a body in the dump.', NOTE, assumptions=TRUST)
prop('C33', 'comparison of the MIR of both feature configurations', [('interface',)] + [
    ('features',) + j for j in ALL_RECORDS + GRAMMAR + [('conversion',), ('accessors',)]],
     'Every function that exists in both configurations is compared with everything it uses, instruction by instruction '
     'and type by type. Where they differ, both are analysed like for the other properties, and a finding in only one of '
     'them is a violation. The public types, functions and implementations have to be the same but for those of serde.',
     'Two dumps of the compiler\'s MIR of the current tree, with and without the feature.', NOTE + ' A difference that no '
     'other property is about (an error text, for example) is listed in the evidence only.', assumptions=TRUST)
prop('C28', 'effect analysis of MIR: global state, unsafe code, calls out of the library, hash order', [('effects',)],
     'No static of the crate can change; no block, function, implementation or foreign item is unsafe; no function of the '
     'crate names, as a call or as a function value, a function of std that reaches the outside world, a clock, randomness, '
     'the environment, threads or the address of a value; and no function takes the first, last or n-th entry of a hash '
     'table, whose order is random.',
     'All functions of the crate and all closures in them, with everything they name.',
     'Decides the absence of these effects in the crate itself. Trusted: that the functions of std, nom, serde and '
     'rust_decimal that are not listed have none of them. The order in which the members of an object are presented to a '
     'visitor is unspecified and not covered.', assumptions=['std, nom, serde, bitflags and rust_decimal functions that are not listed are pure'])
prop('C30', 'abstract interpretation of MIR: ranking functions and progress of recursion', ALL_RECORDS + GRAMMAR + SERDE + [('conversion',)],
     'For every loop that the analysis summarises a lexicographic ranking is searched among the bytes, elements and numbers '
     'left, which every iteration that goes on lowers; no iteration may be left over. Every recursive nonterminal has to be '
     'entered behind the position the calling one began at, or be lower in the order of the nonterminals.',
     'All loops and all calls of nonterminals in the parsers of records and of the grammar, and in the deserializers.',
     NOTE + ' Loops inside functions of other crates without a body in the dump are trusted to end. A loop that is unrolled '
     'completely by the analysis needs no ranking.', assumptions=TRUST)
prop('C31', 'abstract interpretation of MIR: accounting of stored elements and reservations', ALL_RECORDS + GRAMMAR,
     'In every iteration of every loop the number of elements appended to a vector is compared with the bytes read and the '
     'elements taken over from another sequence in that iteration; and every capacity that is reserved is compared with the '
     'number of elements that exist when it is.',
     'All loops of the parsers, and all reservations in them.',
     NOTE + ' The property does not hold: one known finding (runs of nulls). Decides that there is no other.', assumptions=TRUST)
prop('C32', 'call graph and type graph analysis: every recursion is enumerated', [('stack',)] + records('record::BinaryArray'),
     'The strongly connected components of the call graph of the compiled code (with closures and function values) and of the '
     'containment graph of its types are enumerated. The recursions through the nonterminals of the grammar and through '
     'the type Value are known findings; the graph without them has to be free of cycles, and the nonterminals may not '
     'lead to each other in other ways than they do. The rank of an array, which is the nesting of the value made of it, '
     'has to be bounded.',
     'All functions of the crate with the functions of other crates whose bodies are part of the dump.',
     'The property does not hold: two known findings (a message or a value that nests deeply enough overflows the stack). '
     'Decides that there is no other recursion. Calls that only a library function without a body in the dump makes are seen '
     'when the function is named.', assumptions=['library functions call what is handed to them and nothing else of this crate'])
prop('C29', 'compile-fail witnesses with compiling twins, and abstract interpretation of the presentation of strings',
     [('witness',), ('effects',)] + ALL_RECORDS + CLASSES + SERDE,
     'Every witness program (nrbfcheck/witness.py) is type-checked against the crate: those that let a string, value, '
     'message or error outlive the input have to be rejected by the borrow checker, while their twins and the programs '
     'that use strings for the whole lifetime of the input, or types in other threads, have to be accepted. Strings and the '
     'names of members are presented to a visitor as borrowed ones. No record or class holds a constant '
     'in the place of the text of the input that equals it. No function leaks memory to make it live longer.',
     'The public types and functions; the lifetimes hold for every program that uses them, because they are part of their '
     'signatures.', 'Decides what the signatures promise. That the bytes are those of the right field is decided with C03 and '
     'C23.', assumptions=['rustc\'s borrow checker'])
