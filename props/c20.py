"""C20: constants can be added, removed and overridden independently"""
from props.common import *

COVERS = ['add', 'remove', 'override', 'new', 'text', 'nested', 'default', 'empty', 'keys']
BOUNDS = {
    'quick': 'databases of 5 lists in 3 levels of nesting with up to 2 arbitrary values, sequences of up to 3 operations (adding, removing, overriding) of up to 2 entries with up to 2 arbitrary values each, dictionaries without entries, 2 text entries; lookup of every path, '
             'and of paths of up to 6 arbitrary characters; names of entries of up to 2 arbitrary characters (of 8, including blanks); all lists of the default database',
    'thorough': 'sequences of up to 4 operations',
}
ASSUMPTIONS = ['the kind of an entry (dictionary, list or text) is not changed by an operation', 'text entries are not added to']

PATHS = ['a/x', 'a/y', 'b', 'c/d/e', 'n/m']
KEYS = 'a ._-+$%'
V = 'pq'


def nest(entries):
    out = {}
    for p, v in entries:
        d = out
        ks = p.split('/')
        for k in ks[:-1]:
            d = d.setdefault(k, {})
        d[ks[-1]] = v
    return out


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def spoil(x):
    """the caller goes on using its dictionaries"""
    for k in list(x):
        if isinstance(x[k], dict):
            spoil(x[k])
        elif isinstance(x[k], list):
            x[k].append('spoiled')
        else:
            x[k] = 'spoiled'
    x['spoiled'] = ['spoiled']


def lookup(S, c, state):
    for p in PATHS:
        S.check(c.GetByPath(p) == state.get(p, {}), 'value of ' + p)
        S.check(c.GetByPath(p + '/') == state.get(p, {}), 'value with a final slash')
        S.check(c.GetByPath(p + '/z') == {}, 'unknown path beyond a list')
    S.check(c.GetByPath('zz') == {} and c.GetByPath('a/zz') == {} and c.GetByPath('spoiled') == {}, 'unknown path')
    for top in ('a', 'c', 'c/d', 'n'):
        sub = [(p[len(top) + 1:], v) for p, v in state.items() if p.startswith(top + '/')]
        S.check(c.GetByPath(top) == nest(sub), 'all entries below ' + top)


def values(S, name, k):
    return [S.str('%s.%d' % (name, j), 1, V) for j in range(k)]


def step(S, i, c, state, op, paths, k):
    ent = [(p, values(S, '%d%s' % (i, p), k)) for p in paths]
    d = nest(ent)
    # dictionaries without entries change nothing
    for e in S.choice('empty', [[], ['a', 'c/d']]) if i == 0 else []:
        x = d
        for y in e.split('/'):
            S.cover('empty')
            x = x.setdefault(y, {})
    keep = clone(d)
    getattr(c, op + 'Constants')(d)
    S.check(d == keep, 'the dictionary handed over is not changed')
    S.cover(op.lower())
    for p, v in [(p, clone(v)) for p, v in ent]:
        if '/' in p:
            S.cover('nested')
        if op == 'Add':
            if p not in state:
                S.cover('new')
            state[p] = state.get(p, []) + v
        elif op == 'Override':
            state[p] = v
        elif p in state:
            state[p] = [x for x in state[p] if not any([x == y for y in v])]
    spoil(d)


def ops(S, op, path, n, k, m):
    m0 = S.mod('oelint_parser.constants')
    init = nest([('a/x', values(S, 'i1', m)), ('a/y', []), ('b', values(S, 'i2', m)), ('c/d/e', ['p'])])
    state = {'a/x': clone(init['a']['x']), 'a/y': [], 'b': clone(init['b']), 'c/d/e': ['p']}
    c = m0.Constants(init)
    spoil(init)
    for i in range(n):
        o = op if i == 0 else S.choice('op%d' % i, ['Add', 'Remove', 'Override'])
        p = path if i == 0 else S.choice('p%d' % i, [['a/x'], ['a/y', 'b'], ['c/d/e', 'n/m'], ['a/x', 'a/y']])
        step(S, i, c, state, o, p, k)
        lookup(S, c, state)
    return [c.GetByPath(p) for p in PATHS]


def text(S, n):
    """entries that are text"""
    m0 = S.mod('oelint_parser.constants')
    a, b = S.str('a', 1, V), S.str('b', n, V)
    c = m0.Constants({'t': {'x': a, 'y': 'yy'}})
    state = {'x': a, 'y': 'yy'}
    S.cover('text')
    for i in range(2):
        o = S.choice('op%d' % i, ['Override', 'Remove', 'Add'])
        k = S.choice('k%d' % i, ['x', 'n'])
        S.assume(o != 'Add' or k not in state)
        d = {'t': {k: b}}
        getattr(c, o + 'Constants')(d)
        S.check(d == {'t': {k: b}}, 'the dictionary handed over is not changed')
        d['t'][k] = 'spoiled'
        if o == 'Remove':
            if k in state and state[k] == b:
                del state[k]
        else:
            state[k] = b
        S.check(c.GetByPath('t') == state, 'text entries')
        S.check(c.GetByPath('t/x') == state.get('x', {}) and c.GetByPath('t/n') == state.get('n', {}), 'single entries')
    return sorted(c.GetByPath('t').items())


def paths(S, n):
    """arbitrary paths"""
    m0 = S.mod('oelint_parser.constants')
    c = m0.Constants({'a': {'b': ['1'], 'a': {'b': ['2']}}, 'b': ['3']})
    p = S.str('p', n, 'ab/')
    exp = {'b': ['3'], 'a/b': ['1'], 'a/a/b': ['2'], 'a/a': {'b': ['2']}, 'a': {'b': ['1'], 'a': {'b': ['2']}}}
    q = p
    while q.endswith('/'):
        q = q[:-1]
    S.check(c.GetByPath(p) == exp.get(q, {}), 'value or nothing')
    return c.GetByPath(p)


def keys(S, n, k, op):
    """arbitrary names of entries"""
    m0 = S.mod('oelint_parser.constants')
    ks = [S.str('k%d' % i, n, KEYS) for i in range(k)]
    S.assume(len(set(ks)) == k and 'z' not in ks)
    c = m0.Constants({ks[0]: {ks[1]: ['p'], 'z': ['q']}, ks[1]: ['r'], 'z': ['s']})
    d = {ks[0]: {ks[-1]: ['p']}}
    getattr(c, op + 'Constants')(d)
    state = {ks[0] + '/' + ks[1]: ['p'], ks[0] + '/z': ['q'], ks[1]: ['r'], 'z': ['s']}
    p = ks[0] + '/' + ks[-1]
    if op == 'Add':
        state[p] = state.get(p, []) + ['p']
    elif op == 'Override':
        state[p] = ['p']
    elif p in state:
        state[p] = []
    for x, v in state.items():
        S.check(c.GetByPath(x) == v, 'value of each entry')
    for x in (ks[1] + '/' + ks[0], ks[0] + '/' + ks[0], ks[0] + ' ', ' ' + ks[0] + '/z', ks[0] + '/z '):
        if x not in state and x not in ks:
            S.check(c.GetByPath(x) == {}, 'nothing by another name')
    S.cover('keys')
    return [c.GetByPath(x) for x in state]


PROPS = {'FunctionsKnown': 'functions/known', 'FunctionsOrder': 'functions/order', 'VariablesKnown': 'variables/known', 'DistrosKnown': 'replacements/distros', 'MachinesKnown': 'replacements/machines', 'ImagesClasses': 'images/known-classes',
         'ImagesVariables': 'images/known-variables', 'ClassIgnore': 'ignore/classes', 'IncludeIgnore': 'ignore/include'}


def default(S, prop, op):
    """the lists of the default database"""
    m0 = S.mod('oelint_parser.constants')
    c = m0.CONSTANTS
    before = {p: clone(getattr(c, p)) for p in PROPS}
    old = before[prop] or []
    v = S.str('v', 2, 'ab')
    vals = [v] + [x for x in old[:1]]
    d = nest([(PROPS[prop], vals)])
    getattr(c, op + 'Constants')(d)
    exp = old + vals if op == 'Add' else vals if op == 'Override' else [x for x in old if not any([x == y for y in vals])]
    S.check((getattr(c, prop) or []) == exp, 'list of ' + prop)
    for p in PROPS:
        if p != prop:
            S.check(getattr(c, p) == before[p], 'other lists are not changed')
    S.cover('default')
    return exp


def units(tier):
    q = tier == 'quick'
    out = []
    for o in ('Add', 'Remove', 'Override'):
        for p in (['a/x'], ['a/y', 'b'], ['c/d/e', 'n/m'], ['a/x', 'a/y']):
            out += [('ops', [o, p, n, k, m]) for n, k, m in (((1, 2, 2), (2, 1, 1), (3, 1, 1)) if q else ((1, 3, 3), (2, 2, 2), (3, 1, 1), (4, 1, 0)))]
        out += [('default', [p, o]) for p in PROPS]
    out += [('text', [n]) for n in (1, 2)]
    out += [('keys', [n, k, o]) for n, k in (((1, 2), (1, 3), (2, 2)) if q else ((1, 2), (2, 3), (3, 2))) for o in ('Add', 'Remove', 'Override')]
    out += [('paths', [n]) for n in range(0, 7)]
    return out
