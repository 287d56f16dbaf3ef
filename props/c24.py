"""C24: a list of items behaves like a list"""
from props.common import *

OPS = ['get', 'slice', 'set', 'setslice', 'del', 'delslice', 'insert', 'append', 'appendmany', 'extend', 'extendself', 'remove', 'removemany', 'add', 'radd', 'iadd', 'copy', 'pop', 'query', 'reverse', 'clear', 'addself', 'reduce']
COVERS = OPS + ['indexerror', 'valueerror', 'filtered', 'same', 'linked']
BOUNDS = {
    'quick': 'results of queries with 0 to 4 items, sequences of 2 operations, the first out of 23 and the second out of 12 (out of 23 after a changing operation), sequences of 3 out of 7 changing operations followed by copying, filtering or asking, all indices up to 2 beyond both ends, all slices with bounds up to 1 beyond both ends (at most 4) and steps from -2 to 2, foreign and known items, single items, lists, tuples and results of other queries as arguments; '
             'filtering by classifier, attribute and value, and by file with and without linked files',
    'thorough': 'sequences of 3 operations',
}
ASSUMPTIONS = ['multiplication of lists is not part of the claim']

KIND = ['A = "1"\n', '# c\n', 'B = "2"\n', 'A += "3"\n']


CH = ['setslice', 'insert', 'appendmany', 'iadd', 'removemany', 'copy', 'reduce', 'radd']
LIGHT = ['get', 'pop', 'append', 'extend', 'remove', 'removemany', 'addself', 'query', 'reverse', 'clear', 'reduce', 'copy']


USED = []


def setup(S, n):
    USED.clear()
    S.write('a_1.0.bb', ''.join(KIND[:n]) or '')
    S.write('b_1.0.bb', 'X = "1"\nY = "2"\n')
    st = stash(S)
    st.AddFile(S.path('a_1.0.bb'))
    o = stash(S)
    return st, list(o.AddFile(S.path('b_1.0.bb'))), o


def same(a, b):
    return len(a) == len(b) and all([x is y for x, y in zip(a, b)])


def pick(S, name, known, foreign):
    c = list(known[:4]) + foreign[:1]
    return c[S.choice(name, list(range(len(c))))]


def many(S, name, known, foreign, o, mine):
    """one of several kinds of iterables, with the plain list of the same items"""
    v, w = kinds(S, name, known, foreign, o, mine)
    USED.append((v, list(w)))
    return v, w


def kinds(S, name, known, foreign, o, mine):
    k = S.choice(name, ['list', 'tuple', 'query', 'mine', 'empty'])
    if k == 'list':
        r = [foreign[0]] + list(known[:1])
        return r, r
    if k == 'tuple':
        r = (foreign[1], foreign[0])
        return r, list(r)
    if k == 'query':
        r = o.GetItemsFor()
        return r, list(r)
    if k == 'mine':
        r = mine.GetItemsFor(classifier='Variable')
        return r, list(r)
    return [], []


def attempt(S, f, g, exc, label):
    """both raise the same exception, or return their results"""
    ea = eb = a = b = None
    try:
        b = g()
    except exc as e:
        eb = type(e).__name__
    try:
        a = f()
    except exc as e:
        ea = type(e).__name__
    S.check(ea == eb, 'the same exception as a list')
    if eb:
        S.cover(label)
    return a, b, eb is not None


def put(l, i, x):
    l[i] = x


def drop(l, i):
    del l[i]


def step(S, k, op, st, l, r, foreign, o):
    """l: list of items, r: plain list; returns both afterwards"""
    n = 'o%d' % k
    known = list(r)
    S.cover(op)
    if op in ('get', 'set', 'del', 'pop', 'insert'):
        i = S.int(n + 'i', -len(r) - 2, len(r) + 2)
        x = pick(S, n + 'x', known, foreign) if op in ('set', 'insert') else None
        if op == 'get':
            a, b, e = attempt(S, lambda: l[i], lambda: r[i], IndexError, 'indexerror')
        elif op == 'set':
            a, b, e = attempt(S, lambda: put(l, i, x), lambda: put(r, i, x), IndexError, 'indexerror')
        elif op == 'del':
            a, b, e = attempt(S, lambda: drop(l, i), lambda: drop(r, i), IndexError, 'indexerror')
        elif op == 'pop':
            a, b, e = attempt(S, lambda: l.pop(int(i)), lambda: r.pop(int(i)), IndexError, 'indexerror')
        else:
            a, b = l.insert(i, x), r.insert(i, x)
        S.check(a is b, 'result of the operation')
    elif op in ('slice', 'setslice', 'delslice'):
        b = min(len(r) + 1, 4 if k == 0 else 2)
        i, j = S.int(n + 'i', -b, b), S.int(n + 'j', -b, b)
        c = S.choice(n + 's', [1, None, 2, -1, -2] if op == 'slice' else [None])
        if op == 'slice':
            f = S.choice(n + 'f', ['both', 'start', 'end'])
            s = slice(int(i), int(j), c) if f == 'both' else slice(int(i), None, c) if f == 'start' else slice(None, int(j), c)
            a, b = l[s], r[s]
            S.check(same(a, b), 'slice')
            S.check(type(a).__name__ == 'StashList', 'a slice can be filtered as well')
            return a, b
        if op == 'setslice':
            v, w = many(S, n + 'v', known, foreign, o, st)
            put(l, slice(int(i), int(j)), v)
            put(r, slice(int(i), int(j)), w)
        else:
            drop(l, slice(int(i), int(j)))
            drop(r, slice(int(i), int(j)))
    elif op == 'append':
        x = pick(S, n + 'x', known, foreign)
        l.append(x)
        r.append(x)
    elif op == 'remove':
        x = pick(S, n + 'x', known, foreign)
        attempt(S, lambda: l.remove(x), lambda: r.remove(x), ValueError, 'valueerror')
    elif op == 'appendmany':
        v, w = many(S, n + 'v', known, foreign, o, st)
        l.append(v)
        r.extend(w)
    elif op == 'extend':
        v, w = many(S, n + 'v', known, foreign, o, st)
        l.extend(v)
        r.extend(w)
    elif op == 'extendself':
        l.extend(l)
        r.extend(list(r))
    elif op == 'removemany':
        m = S.choice(n + 'v', ['all', 'first', 'tuple', 'none'])
        w = known if m == 'all' else known[:1] if m != 'none' else []
        l.remove(l if m == 'all' else tuple(w) if m == 'tuple' else w)
        for x in w:
            r.remove(x)
    elif op == 'add':
        v, w = many(S, n + 'v', known, foreign, o, st)
        a = l + v
        S.check(same(l, r), 'concatenation does not change the list')
        return a, r + w
    elif op == 'radd':
        w = [foreign[0]]
        a = w + l
        S.check(same(l, r) and same(w, [foreign[0]]), 'concatenation does not change the lists')
        return a, w + r
    elif op == 'addself':
        return l + l, r + r
    elif op == 'iadd':
        v, w = many(S, n + 'v', known, foreign, o, st)
        keep = l
        l += v
        r += w
        S.check(l is keep, 'the list itself is extended')
    elif op == 'copy':
        a = l.copy()
        S.check(a is not l and same(a, r), 'copy')
        a.append(foreign[0])
        a.insert(0, foreign[1])
        S.check(same(l, r), 'changing the copy leaves the list alone')
        return (l, r) if S.bool(n + 'o') else (a, [foreign[1]] + r + [foreign[0]])
    elif op == 'query':
        x = pick(S, n + 'x', known, foreign)
        S.check((x in l) == (x in r) and (x not in l) == (x not in r), 'membership')
        S.check(l.count(x) == r.count(x), 'number of occurrences')
        if x in r:
            S.check(l.index(x) == r.index(x), 'index')
        S.check(len(l) == len(r) and bool(l) == bool(r), 'length')
        S.check(same(list(reversed(l)), list(reversed(r))), 'iteration backwards')
        S.check((l == r) is True and (l != r) is False, 'equality')
    elif op == 'reverse':
        l.reverse()
        r.reverse()
    elif op == 'clear':
        l.clear()
        r.clear()
    elif op == 'reduce':
        f = S.choice(n + 'f', [{'classifier': 'Variable'}, {'classifier': ['Comment', 'Variable']}, {'attribute': 'VarName', 'attributeValue': 'A'}, {'classifier': 'Inherit'}])
        out = []
        for x in r:
            at = x.GetAttributes()
            ok = ('classifier' not in f or x.CLASSIFIER in f['classifier']) and ('attribute' not in f or at.get('VarName') == 'A')
            if ok and not any([x is y for y in out]):
                out.append(x)
        out.sort(key=lambda x: x.Line)
        a = l.reduce(**f)
        S.check(a is l, 'the list itself is filtered')
        S.cover('filtered')
        return a, out
    return l, r


def ops(S, n, first, then, deep=False):
    st, foreign, o = setup(S, n)
    mine = list(st.GetItemsFor())
    other = list(o.GetItemsFor())
    l = st.GetItemsFor()
    r = list(l)
    S.check(type(r) is list and len(r) == n, 'items of the file')
    seq = list(first)
    for i, op in enumerate(seq + [None] * (1 if then else 0)):
        if op is None:
            op = S.choice('op', OPS if len(seq) == 1 and seq[0] in CH[2:] or deep else LIGHT)
        l, r = step(S, i, op, st, l, r, foreign, o)
        S.check(same(l, r), 'the items a plain list contains')
        S.check([x.RealRaw for x in l] == [x.RealRaw for x in r], 'iteration')
        S.check(all([same(a, b) for a, b in USED]), 'the arguments are left alone, later as well')
        S.check(same(st.GetItemsFor(), mine), 'the stash is not changed')
        S.check(same(o.GetItemsFor(), other), 'the other stash is not changed')
    S.cover('same')
    return [x.RealRaw for x in l]


def linked(S, k, fin):
    """filtering by file, with and without the files linked to it"""
    parts = ['', '', '']
    for i in range(k):
        w = S.choice('w%d' % i, [0, 1, 2])
        parts[w] = parts[w] + KIND[S.choice('k%d' % i, [0, 2, 3])]
    S.write('a_1.0.bb', parts[0] + 'require a.inc\n')
    S.write('a.inc', parts[1])
    S.write('b_1.0.bb', parts[2] + 'Z = "1"\n')
    st = stash(S)
    for f in ('a_1.0.bb', 'b_1.0.bb'):
        st.AddFile(S.path(f))
    if fin:
        st.Finalize()
    a, inc, b = S.path('a_1.0.bb'), S.path('a.inc'), S.path('b_1.0.bb')
    for f, kw in ((a, {}), (b, {}), (a, {'classifier': 'Variable'}), (inc, {}), (a, {'attribute': ['VarName'], 'attributeValue': ['A', 'Z']})):
        for nolink in (False, True):
            l = st.GetItemsFor()
            r = []
            for x in l:
                hit = x.Origin == f or (not nolink and f == a and x.Origin == inc)
                if f == inc and not nolink and x.Origin != inc:
                    # links are known in either direction
                    hit = any([x is y for y in st.GetItemsFor(filename=inc)])
                hit = hit and ('classifier' not in kw or x.CLASSIFIER == 'Variable') and ('attribute' not in kw or x.GetAttributes().get('VarName') in ('A', 'Z'))
                if hit:
                    r.append(x)
            o = l.reduce(filename=f, nolink=nolink, **kw)
            S.check(o is l and same(list(l), r), 'the items of the file')
    S.cover('linked')
    return len(st.GetItemsFor())


def units(tier):
    q = tier == 'quick'
    out = []
    out += [('linked', [k, f]) for k in ((1, 2) if q else (1, 2, 3)) for f in (0, 1)]
    for op in OPS:
        out += [('ops', [n, [op], False]) for n in range(4 if q and 'slice' in op else 5)]
        out += [('ops', [n, [op], True]) for n in (() if q and op in ('setslice', 'slice') else (1,) if q and op in ('delslice', 'insert') else (2,) if q else (1, 2, 3))]
    out += [('ops', [0, [op], True]) for op in ('appendmany', 'extend', 'iadd', 'add', 'setslice', 'radd')]
    for a in CH[1:]:
        for b in CH[1:]:
            if q and b == 'insert':
                continue
            if q:
                out += [('ops', [2, [a, b, c], False]) for c in ('copy', 'reduce', 'query')]
            else:
                out += [('ops', [2, [a, b], True, True])]
    return out
