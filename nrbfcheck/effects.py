"""What the library can touch besides its arguments: global state, the outside world, addresses, hash order."""
import re

from .rules import Report
from .units import bare
from .walk import Finding

STD = ('core', 'alloc', 'std', 'std_detect')

# std's ways out of the program, and into things that differ between two runs
DENIED = [
    (r'(fs|net|process|os|thread|env|backtrace|arch|random)::', 'the outside world'),
    (r'time::(Instant|SystemTime)', 'a clock'),
    (r'io::(stdin|stdout|stderr|Std|_print|_eprint|stdio|copy|empty_never)', 'input or output'),
    (r'io::stdio::', 'input or output'),
    (r'panic::(set_hook|take_hook)', 'global state'),
    (r'panicking::(set_hook|take_hook)', 'global state'),
    (r'alloc::(alloc|dealloc|realloc|set_alloc|Global)', 'raw memory'),
    (r'fmt::Pointer', 'an address'),
    (r'fmt::rt::Argument(<.*>)?::new_pointer', 'an address'),
    (r'ptr::hash$', 'an address'),
    (r'hash::RandomState::(hash_one|build_hasher)', 'a random number'),
    (r'hash::random::', 'a random number'),
    (r'is_x86_feature_detected|detect::', 'the processor'),
]
DENIED = [(re.compile(r'^(std|core|alloc|std_detect)::' + r), w) for r, w in DENIED]
PTR_METHODS = {'addr', 'expose_provenance', 'align_offset', 'is_aligned', 'as_ptr_range', 'offset_from', 'byte_offset_from',
               'guaranteed_eq', 'guaranteed_ne'}
HASHED = re.compile(r'hash_(map|set)::|collections::hash::(map|set)::')
PICKS = {'next', 'last', 'nth', 'take', 'skip', 'zip', 'enumerate', 'next_back'}


def fns_mentioned(U, body):
    """Function types in a body with the span of their first use."""
    T = U.T
    out = {}

    def ty(i, span, seen):
        if i in seen:
            return
        seen.add(i)
        t = T[i]
        if t['k'] == 'fndef':
            out.setdefault(i, span)
            f = t.get('fn') or {}
            for a in f.get('args') or []:
                if isinstance(a, int):
                    ty(a, span, seen)
        elif t['k'] == 'tuple':
            for a in t['fields']:
                ty(a, span, seen)

    def walk(x, span, seen):
        if isinstance(x, dict):
            span = x.get('s') if isinstance(x.get('s'), str) else span
            for k, v in x.items():
                if k in ('ty', 'fty') and isinstance(v, int):
                    ty(v, span, seen)
                elif isinstance(v, (dict, list)):
                    walk(v, span, seen)
        elif isinstance(x, list):
            for v in x:
                walk(v, span, seen)

    walk(body.get('blocks') or [], body.get('span'), set())
    walk(body.get('promoted') or [], body.get('span'), set())
    return out


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def in_loop(body, block):
    """Can a block be reached from itself?"""
    seen, todo = set(), list(targets(body['blocks'][block]['t']))
    while todo:
        b = todo.pop()
        if b == block:
            return True
        if b in seen:
            continue
        seen.add(b)
        todo += targets(body['blocks'][b]['t'])
    return False


def targets(t):
    r = []
    if isinstance(t.get('t'), int):
        r.append(t['t'])
    for x in t.get('ts') or []:
        r.append(x[1])
    if isinstance(t.get('else'), int):
        r.append(t['else'])
    return r


def effects_unit(U):
    rep = Report('effects')
    T, I = U.T, U.P.I
    calls = 0

    def find(fn, what, span, tags=frozenset({'C28'})):
        f = Finding(set(tags), what, fn, span, '')
        if all((x.fn, x.what) != (f.fn, f.what) for x in rep.findings):
            rep.findings.append(f)

    for i in U.P.items:
        if i['kind'] == 'static':
            if i['mut']:
                find(i['path'], 'a mutable static', i['span'])
            elif not i['freeze'] and not (re.match(r'std::sync::(LazyLock|lazy_lock::LazyLock)<', i['ty'])
                                          and not re.search(r'Mutex|RwLock|Atomic|Cell|OnceLock|Once\b', i['ty'])):
                find(i['path'], 'a static with interior mutability', i['span'])
        elif i['kind'] == 'ForeignMod':
            find(i['path'], 'foreign functions', i['span'])
        elif i['kind'] == 'impl' and i.get('unsafe') and not i.get('expanded'):
            find(i['path'], 'an unsafe implementation', i['span'])
        elif i['kind'] == 'adt' and i.get('union'):
            find(i['path'], 'a union', i['span'])
    for s in U.P.d['unsafe_blocks']:
        if not s['expanded']:
            find('%s' % s['span'].rsplit(':', 1)[0], 'an unsafe block', s['span'])
    for f in U.P.d['fns']:
        if f.get('unsafe'):
            find(f['path'], 'an unsafe function', f['span'])
    bodies = [b for b in I if b.get('crate') == U.P.d['crate'] and b.get('blocks')]
    for b in bodies:
        name = b['path']
        ms = fns_mentioned(U, b)
        calls += len(ms)
        measured = any(T[m]['fn']['path'].rsplit('::', 1)[-1] in ('len', 'is_empty') for m in ms)
        for m, span in ms.items():
            f = T[m]['fn']
            if f.get('crate') not in STD:
                continue
            for p in {f.get('path') or '', f.get('tpath') or '', bare(f.get('path') or ''), f.get('full') or ''}:
                for r, what in DENIED:
                    if r.match(p):
                        find(name, 'depends on %s: %s' % (what, p), span)
            last = (f.get('path') or '').rsplit('::', 1)[-1]
            if last == 'leak' or last == 'forget' and 'mem::' in (f.get('path') or ''):
                find(name, 'memory that is never freed takes the place of the input: %s' % f['path'], span, {'C29'})
            if last in PTR_METHODS and re.search(r'ptr|slice|str', f.get('path') or ''):
                find(name, 'depends on an address: %s' % f['path'], span)
            if last in ('build_hasher', 'hash_one') and 'RandomState' in T[m]['s']:
                find(name, 'depends on a random number: %s' % f['path'], span)
        for n in nodes(b['blocks']):
            if n.get('k') == 'cast' and re.search(r'ExposeProvenance|ExposeAddr|FromExposed|WithExposed', str(n.get('c'))):
                find(name, 'depends on an address', b['span'])
            elif n.get('k') == 'tls':
                find(name, 'a thread-local static', b['span'])
            elif n.get('k') == 'asm':
                find(name, 'inline assembly', b['span'])
            elif n.get('k') == 'bin' and n.get('op') in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp') and any(
                    is_ptr(U, b, n.get(x)) for x in ('a', 'b', 'l', 'r')):
                find(name, 'depends on an address', b['span'])
        # the first entry of a hash map is a random one
        for k, blk in enumerate(b['blocks']):
            t = blk['t']
            if t['k'] != 'call' or not isinstance(t.get('fty'), int) or T[t['fty']]['k'] != 'fndef':
                continue
            f = T[t['fty']]['fn']
            last = (f.get('tpath') or f.get('path') or '')
            if not re.search(r'iter::(traits::)?\w*(::)?(Iterator|DoubleEndedIterator|iterator::Iterator)::\w+$', last):
                continue
            last = last.rsplit('::', 1)[-1]
            if last not in PICKS or not f.get('args') or not HASHED.search(type_text(U, f['args'][0])):
                continue
            if last == 'next' and in_loop(b, k):
                continue
            what = 'depends on the order of a hash table: Iterator::%s' % last
            if measured:
                rep.undecided.append('%s %s, unless there is one entry only' % (name, what))
            else:
                find(name, what, t.get('s') or b['span'])
    rep.stats = {'functions': len(bodies), 'function values': calls, 'items': len(U.P.items),
                 'unsafe blocks': len(U.P.d['unsafe_blocks']), 'obligations': calls + len(U.P.items)}
    return rep


def type_text(U, i):
    return U.T[i].get('s') or str(U.T[i].get('path'))


def is_ptr(U, body, o):
    if not isinstance(o, dict) or o.get('k') not in ('copy', 'move') or len(o['p']) != 1:
        return False
    return U.T[body['locals'][o['p'][0]]]['k'] == 'ptr'


def components(graph):
    """Strongly connected components (Tarjan) that are cycles."""
    index, low, on, stack, out = {}, {}, set(), [], []
    for root in graph:
        if root in index:
            continue
        work = [(root, iter(graph[root]))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            n, it = work[-1]
            for m in it:
                if m not in graph:
                    continue
                if m not in index:
                    index[m] = low[m] = len(index)
                    stack.append(m)
                    on.add(m)
                    work.append((m, iter(graph[m])))
                    break
                if m in on:
                    low[n] = min(low[n], index[m])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == index[n]:
                    c = []
                    while True:
                        m = stack.pop()
                        on.discard(m)
                        c.append(m)
                        if m == n:
                            break
                    if len(c) > 1 or n in graph[n]:
                        out.append(c)
    return out


# nesting of objects (members), and of references to objects that come later
RECURSION = {'member': {'member', 'classes'}, 'classes': {'referenceable', 'member'},
             'referenceable': {'referenceable', 'member', 'classes'}}


def stack_unit(U):
    """Every recursion of the crate is one of those that are known to follow the nesting of a message or of a value."""
    rep = Report('stack')
    I, T, crate = U.P.I, U.T, U.P.d['crate']
    # a closure names itself as its first argument
    graph = {i: {c for c in U.callees(i) if I[c] is not None and not (c == i and I[i]['closure'])} for i in range(len(I)) if I[i] is not None}

    def find(fn, what, span, detail=''):
        f = Finding({'C32'}, what, fn, span, detail)
        if all((x.fn, x.what) != (f.fn, f.what) for x in rep.findings):
            rep.findings.append(f)

    def own(c):
        return sorted({(I[i]['path'], str(I[i]['span'])) for i in c if I[i]['crate'] == crate})

    nts = {v[1]['inst'] for v in U.nt.values()}
    paths = {v[0] for v in U.nt.values()}
    deser = {i for i in graph if I[i]['crate'] == crate and re.search(r'serde::(de::)?Deserializer<', I[i]['path'])
             and not I[i]['closure']}
    for c in components(graph):
        if any(I[i]['path'] in paths for i in c):
            find('BinaryParser', 'parsing recurses once per nested object, without a limit', '', ', '.join(p for p, _s in own(c)))
        elif any(i in deser for i in c):
            find('Value', 'a value can contain itself: using it recurses without a limit', '', '')
    # which nonterminal leads to which
    for k, v in U.nt.items():
        reach, todo, seen = set(), list(graph[v[1]['inst']]), set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            if I[i]['path'] in U.nt_by_path:
                reach.add(U.nt_by_path[I[i]['path']])
            else:
                todo += graph.get(i, ())
        for x in sorted(reach - RECURSION[k]):
            find(v[0], 'a new recursion into %s' % U.nt[x][0], v[1]['span'])
    rest = {i: g for i, g in graph.items() if I[i]['path'] not in paths and i not in deser}
    cycles = 0
    for c in components(rest):
        fns = own(c)
        if not fns:
            continue
        cycles += 1
        p, s = fns[0]
        find(p, 'recursion that is not bounded: %s' % ', '.join(x for x, _s in fns[:6]), s)
    # types
    def inside(t, seen, out):
        if t in seen:
            return
        seen.add(t)
        x = T[t]
        if x['k'] == 'adt':
            if x.get('crate') == crate or any(i['kind'] == 'adt' and i['path'] == x['path'] for i in U.P.items):
                out.add(x['path'])
            for a in x.get('args') or []:
                if isinstance(a, int):
                    inside(a, seen, out)
        elif x['k'] in ('tuple',):
            for a in x['fields']:
                inside(a, seen, out)
        elif x['k'] in ('slice', 'array'):
            inside(x.get('of', x.get('elem', x.get('to'))), seen, out)
        elif x['k'] in ('ref', 'ptr'):
            pass

    tg = {}
    for p, t in U.P.adts.items():
        if not any(i['kind'] == 'adt' and i['path'] == p for i in U.P.items):
            continue
        out = set()
        for v in t['variants']:
            for f in v['fields']:
                inside(f['ty'] if isinstance(f, dict) else f, set(), out)
        tg[p] = out
    for c in components(tg):
        names = sorted(x.rsplit('::', 1)[-1] for x in c)
        if 'Value' in names:
            find('Value', 'a value can contain itself: using it recurses without a limit', '', ', '.join(names))
            names = [n for n in names if n not in ('Value', 'Object')]
            if not names:
                continue
        find(names[0], 'a type that can contain itself: %s' % ', '.join(names), '')
    rep.stats = {'functions': len(graph), 'calls': sum(map(len, graph.values())), 'recursive functions cut': len(nts) + len(deser),
                 'types': len(tg), 'obligations': len(graph) + len(tg)}
    return rep
