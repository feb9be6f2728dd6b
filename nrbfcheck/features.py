"""Comparison of the crate as it is built with and without the serde feature."""
import re

# keys of the dump that hold indices of types or of instances
TY = {'self', 'ty', 'from', 'elem', 'to', 'dty', 'fty', 'out', 'adt', 'self_tid'}
TYS = {'rargs', 'args', 'ins', 'upvars', 'locals'}
SKIP = {'s', 'span', 'names', 'd', 'full', 'expanded', 'parent'}


def norm(s):
    return re.sub(r'DefId\([^)]*\)|\[[0-9a-f]{4}\]', '', str(s))


class Diff:
    """Compares what is reachable from pairs of functions; `differing` are the paths of the functions whose own body or
    types differ."""

    def __init__(self, P, Q):
        self.P, self.Q = P, Q
        self.types, self.insts = {}, {}
        self.todo = []
        self.differing = {}
        self.compared = 0

    def function(self, a, b):
        self.inst(a, b)
        while self.todo:
            a, b = self.todo.pop()
            x, y = self.P.I[a], self.Q.I[b]
            self.compared += 1
            r = self.obj(x, y, 'inst')
            if r is not None:
                self.differing.setdefault((x or {}).get('path') or str(a), (r, (x or {}).get('span')))

    def inst(self, a, b):
        if (a is None) != (b is None):
            return False
        if a is not None and (a, b) not in self.insts:
            self.insts[a, b] = True
            self.todo.append((a, b))
        return True

    def type(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if (a, b) in self.types:
            return self.types[a, b]
        self.types[a, b] = True
        x, y = self.P.T[a], self.Q.T[b]
        r = self.obj(x, y, 'type') is None
        if r and x.get('k') in ('param', 'alias', 'dyn', 'fnptr', 'other'):
            r = norm(x.get('s')) == norm(y.get('s'))
        self.types[a, b] = r
        return r

    def obj(self, x, y, where):
        """None, or where the two differ."""
        if type(x) is not type(y):
            return where
        if isinstance(x, dict):
            if set(x) - SKIP != set(y) - SKIP:
                return where
            for k in x:
                if k in SKIP:
                    continue
                u, v = x[k], y[k]
                if k == 'inst':
                    if not self.inst(u, v):
                        return where
                elif k in TY and (u is None or isinstance(u, int)):
                    if not self.type(u, v):
                        return '%s (type)' % where
                elif k in TYS and isinstance(u, list) and all(isinstance(i, int) for i in u):
                    if not isinstance(v, list) or len(u) != len(v) or not all(self.type(i, j) for i, j in zip(u, v)):
                        return '%s (types)' % where
                elif k == 'fields' and isinstance(u, list) and all(isinstance(i, int) for i in u) and 'tuple' == x.get('k'):
                    if not isinstance(v, list) or len(u) != len(v) or not all(self.type(i, j) for i, j in zip(u, v)):
                        return '%s (fields)' % where
                else:
                    r = self.obj(u, v, x.get('s') or where)
                    if r is not None:
                        return r
            return None
        if isinstance(x, list):
            if len(x) == 3 and x[0] == 'f' and isinstance(y, list) and len(y) == 3 and y[0] == 'f':
                return None if x[1] == y[1] and self.type(x[2], y[2]) else where
            if len(x) != len(y):
                return where
            for u, v in zip(x, y):
                r = self.obj(u, v, where)
                if r is not None:
                    return r
            return None
        if isinstance(x, str):
            return None if norm(x) == norm(y) else where
        return None if x == y else where


def bare(s):
    return re.sub(r'<.*', '', str(s or ''))


def fns(P):
    return {f['path']: f for f in (P.fns.values() if isinstance(P.fns, dict) else P.fns)}


def diff(P, Q):
    """The functions which both configurations have, compared with everything they use."""
    d = Diff(P, Q)
    p, q = fns(P), fns(Q)
    for k in sorted(q):
        if k in p and q[k]['inst'] is not None and p[k]['inst'] is not None:
            d.function(p[k]['inst'], q[k]['inst'])
    return d


def interface(P, Q, find):
    """Compares the public interfaces of a build with serde (P) and one without (Q). Returns how much was compared."""
    T = {'C33'}
    d = Diff(P, Q)
    adts = [{i['path']: i for i in X.items if i['kind'] == 'adt' and i['pub']} for X in (P, Q)]
    public = set(adts[0]) | set(adts[1])
    n = 0
    for k in sorted(public):
        n += 1
        a, b = (x.get(k) for x in adts)
        if a is None or b is None:
            if 'serde' not in k:
                find(T, k, 'the public type exists only %s' % ('with serde' if b is None else 'without serde'),
                     (a or b)['span'])
        elif not d.type(a['ty'], b['ty']):
            find(T, k, 'the public type is not the same with and without serde', a['span'])
    p, q = fns(P), fns(Q)
    for k in sorted(set(p) | set(q)):
        a, b = p.get(k), q.get(k)
        f = a or b
        if not (f['pub'] and f['reachable']) or f['self_ty'] and bare(f['self_ty']) not in public:
            continue
        n += 1
        if a is None:
            find(T, k, 'the public function exists only without serde', f['span'])
        elif b is None:
            if not re.search(r'\bserde(_core)?::', k + ' ' + f['sig']):
                find(T, k, 'the public function exists only with serde', f['span'])
        elif norm(a['sig']) != norm(b['sig']):
            find(T, k, 'the public function does not have the same signature with and without serde', f['span'])
    impls = [{i['path']: i for i in X.items if i['kind'] == 'impl' and i['trait'] and bare(i['self']) in public}
             for X in (P, Q)]
    for k in sorted(set(impls[0]) | set(impls[1])):
        n += 1
        if k not in impls[0]:
            find(T, k, 'the implementation exists only without serde', impls[1][k]['span'])
        elif k not in impls[1] and 'serde' not in k:
            find(T, k, 'the implementation exists only with serde', impls[0][k]['span'])
    return n
