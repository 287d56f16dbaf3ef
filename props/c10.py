"""C10: unset removes exactly what was assigned before it"""
from props.common import *
from props.c09 import OPS, W, line, ref

COVERS = ['unset', 'flag', 'other', 'again', 'include', 'filter', 'override', 'name']
BOUNDS = {
    'quick': 'sequences of 3 statements, each an assignment with any of 11 operators to one of two variables, or one of 4 unset statements (either variable, with or without flag), values of one arbitrary letter; an assignment, '
             'an unset and an assignment with values of up to 2 arbitrary words; names of up to 4 arbitrary characters with any of 3 suffixes; the statements spread over a recipe, its include and its bbappend; variables with override',
    'thorough': 'sequences of up to 5 statements, names of up to 6 arbitrary characters',
}
ASSUMPTIONS = ['values have no references and no inline code']

DEFER = ('append', 'prepend', 'remove')
UNSETS = ['unset A', 'unset B', 'unset A[doc]', 'A[doc] = "x"']


def refu(prog):
    """immediate operators only count after the last unset, deferred ones (append, prepend, remove) always do"""
    out = []
    for o in prog:
        if o[0] == 'unset':
            out = [x for x in out if x[0] in DEFER]
        else:
            out.append(o)
    return out


def stmt(S, i, progs, first=None):
    """one statement, returns its text"""
    k = first if first is not None else S.choice('k%d' % i, ['A', 'B'] + UNSETS)
    if k in ('A', 'B'):
        op = S.choice('op%d' % i, OPS)
        v = S.str('v%d' % i, 1, W)
        progs[k].append((op, v))
        return line(k, op, v)
    if k in ('unset A', 'unset B'):
        if progs[k[-1]]:
            S.cover('unset')
        if [x for x in progs[k[-1]] if x[0] == 'unset']:
            S.cover('again')
        progs[k[-1]].append(('unset', ''))
    else:
        S.cover('flag')
    return k + '\n'


def verify(S, p, st, progs):
    r = st.ExpandVar(filename=p)
    for k in progs:
        S.check(r.get(k, []) == ref(refu(progs[k])), 'value of ' + k)
        if progs[k] and not refu(progs[k]):
            S.check(k not in r, 'an unset variable is not defined')
    f = st.ExpandVar(filename=p, attribute='VarName', attributeValue='A')
    S.check(f.get('A', []) == ref(refu(progs['A'])), 'value of a single variable')
    S.cover('filter')
    return [r.get('A'), r.get('B'), f.get('A')]


def seq(S, first, k):
    lean(S)
    progs = {'A': [], 'B': []}
    text = ''
    for i in range(k):
        text = text + stmt(S, i, progs, first if i == 0 else None)
    S.assume('unset' in text)
    S.write('a_1.0.bb', text)
    st = stash(S)
    p = S.path('a_1.0.bb')
    st.AddFile(p)
    S.cover('other')
    return verify(S, p, st, progs)


def words(S, o1, flag, blank):
    """assignment, unset, assignment of words"""
    lean(S)
    a, b = S.str('a', 2, 'ab '), S.str('b', 2, 'ab ')
    o2 = S.choice('o2', OPS)
    progs = {'A': [(o1, a)], 'B': [('=', 'x')]}
    if not flag:
        progs['A'].append(('unset', ''))
    progs['A'].append((o2, b))
    S.write('a_1.0.bb', 'B = "x"\n' + line('A', o1, a) + 'unset' + blank + 'A' + ('[f]' if flag else '') + '\n' + line('A', o2, b))
    st = stash(S)
    p = S.path('a_1.0.bb')
    st.AddFile(p)
    return verify(S, p, st, progs)


def spread(S, o1, where):
    """the unset is in another file than the assignment"""
    lean(S)
    progs = {'A': [], 'B': []}
    parts = ['', '', '']
    for i, (k, w) in enumerate(zip(('A', 'unset A', 'A'), where)):
        if k == 'A':
            op = o1 if i == 0 else S.choice('op%d' % i, OPS)
            v = S.str('v%d' % i, 1, W)
            progs['A'].append((op, v))
            parts[w] = parts[w] + line('A', op, v)
        else:
            progs['A'].append(('unset', ''))
            parts[w] = parts[w] + 'unset A\n'
    S.write('a.inc', parts[1])
    S.write('a_1.0.bb', parts[0] + 'require a.inc\n')
    S.write('a_%.bbappend', parts[2])
    st = stash(S)
    p = S.path('a_1.0.bb')
    files = ['a_1.0.bb', 'a_%.bbappend']
    if S.bool('order'):
        files = ['a_%.bbappend', 'a_1.0.bb']
    for f in files:
        st.AddFile(S.path(f))
    st.Finalize()
    S.cover('include')
    return verify(S, p, st, progs)


def names(S, n, m, sfx, flag):
    """unset of one name does not affect any other name"""
    lean(S)
    a, b = S.str('a', n, 'AB_-9') + sfx[0], S.str('b', m, 'AB_-9') + sfx[1]
    S.assume(a[0] in 'AB' and b[0] in 'AB')
    S.write('a_1.0.bb', a + ' = "x"\nunset ' + b + ('[' + S.str('f', 1, 'abA9') + ']' if flag else '') + '\n')
    st = stash(S, new_style_override_syntax=True)
    p = S.path('a_1.0.bb')
    st.AddFile(p)
    r = st.ExpandVar(filename=p)
    u = st.GetItemsFor(classifier='Unset')
    S.check(len(u) == 1 and u[0].VarName == b and (u[0].Flag != '') == flag, 'name to be unset')
    S.cover('name')
    if ':' in a:
        S.cover('override')
    if a == b and not flag:
        S.check(a not in r, 'the variable is gone')
    else:
        S.check(r[a] == ['x'], 'another variable is unaffected')
    return [r.get(a), u[0].VarName, u[0].Flag]


def units(tier):
    q = tier == 'quick'
    out = []
    for k in ['A', 'B'] + UNSETS:
        out += [('seq', [k, n]) for n in ((2, 3) if q else (2, 3, 4))]
    for o in OPS:
        out += [('words', [o, f, b]) for f in (False, True) for b in ((' ',) if q else (' ', '\t', '  '))]
        out += [('spread', [o, w]) for w in ([0, 1, 2], [0, 0, 1], [1, 2, 2], [0, 2, 2], [0, 1, 1])]
    for f in (False, True):
        for s in (['', ''], [':mach', ''], [':mach', ':mach'], ['', ':mach']):
            out += [('names', [n, m, s, f]) for n, m in (((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3)) if q else ((2, 2), (3, 3), (4, 3), (3, 4), (4, 4), (5, 5)))]
    return out
