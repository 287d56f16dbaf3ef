"""C31: the override syntax of a file is found once and kept"""
from props.common import *

COVERS = ['old', 'new', 'switch', 'forced', 'include', 'function', 'plain', 'value']
BOUNDS = {
    'quick': 'files of up to 4 statements out of 12 kinds (variables and functions with and without override in the old and the new syntax, colons in values, comments, flags, keywords and inline code), names of up to 2 arbitrary characters, with and '
             'without the option of the stash; an include or class with statements of its own before, between and after',
    'thorough': 'files of up to 5 statements, names of up to 3 arbitrary characters',
}
ASSUMPTIONS = ['overrides are lower case, parts of names upper case']

U = UPPER
O = 'abcx1'


def statement(S, i, kind, n):
    """text, does it show the new syntax, expected name and overrides in the old and new syntax"""
    a = S.str('a%d' % i, n, 'ABZ')
    o = S.str('o%d' % i, n, O)
    if kind == 'plain':
        return a + ' = "1"\n', False, (a, []), (a, [])
    if kind == 'old':
        return a + '_' + o + ' = "1"\n', False, (a, [o]), (a + '_' + o, [])
    if kind == 'new':
        return a + ':' + o + ' = "1"\n', True, None, (a, [o])
    if kind == 'both':
        return a + '_x:' + o + ' = "1"\n', True, None, (a + '_x', [o])
    if kind == 'fold':
        return 'do_' + o + '_append() {\n  :\n}\n', False, ('do_' + o, ['append']), ('do_' + o + '_append', [])
    if kind == 'fnew':
        return 'do_' + o + ':append() {\n  :\n}\n', True, None, ('do_' + o, ['append'])
    if kind == 'ref':
        return '${' + a + '}:' + o + ' = "1"\n', True, None, ('${' + a + '}', [o])
    if kind == 'fref':
        return '${' + a + '}_do:append() {\n  :\n}\n', True, None, ('${' + a + '}_do', ['append'])
    if kind == 'value':
        return a + ' = "x:' + o + ' ${@d.a(1)[1:2]}"\n', False, (a, []), (a, [])
    if kind == 'comment':
        return '# ' + a + ':' + o + ' = "1"\n', False, None, None
    if kind == 'flag':
        return a + '[' + o + '] = "a:b"\n', False, None, None
    return 'require x:' + o + '.inc\n', False, None, None


KINDS = ['plain', 'old', 'new', 'both', 'fold', 'fnew', 'value', 'comment', 'flag', 'req', 'ref', 'fref']


def check(S, item, new, exp_old, exp_new, what):
    S.check(bool(item.IsNewStyleOverrideSyntax) == new, 'syntax of ' + what)
    S.check(item.OverrideDelimiter == (':' if new else '_'), 'delimiter of ' + what)
    e = exp_new if new else exp_old
    if e is not None:
        name = item.FuncName if item.CLASSIFIER == 'Function' else item.VarName
        S.check(name == e[0] and item.SubItems == e[1], 'name and overrides of ' + what)


def file(S, k, n, first, forced):
    """a sequence of statements"""
    st = stash(S, new_style_override_syntax=bool(forced))
    ks = [first if i == 0 else S.choice('k%d' % i, KINDS) for i in range(k)]
    # subsequent comments are one item
    S.assume(not any([ks[i] == ks[i + 1] == 'comment' for i in range(k - 1)]))
    sts = [statement(S, i, ks[i], n) for i in range(k)]
    S.write('a_1.bb', ''.join([x[0] for x in sts]))
    items = st.AddFile(S.path('a_1.bb'))
    S.check(len(items) == k, 'one item per statement')
    new = bool(forced)
    for it, s in zip(items, sts):
        if s[1]:
            if not new:
                S.cover('switch')
            new = True
        check(S, it, new, s[2], s[3], 'a statement')
        S.cover('new' if new else 'old')
        if it.CLASSIFIER == 'Function':
            S.cover('function')
        if 'a(1)' in s[0]:
            S.cover('value')
    if forced:
        S.cover('forced')
    S.cover('plain')
    return [x.OverrideDelimiter for x in items]


def included(S, stmt, n):
    """files have a syntax of their own"""
    st = stash(S)
    ks = [S.choice('k%d' % i, ['plain', 'old', 'new', 'fnew']) for i in range(4)]
    sts = [statement(S, i, ks[i], n) for i in range(4)]
    S.write('conf/layer.conf', '')
    S.write('x.inc', sts[1][0] + sts[2][0])
    S.write('classes/x.bbclass', sts[1][0] + sts[2][0])
    S.write('a_1.bb', sts[0][0] + stmt + '\n' + sts[3][0])
    own = st.AddFile(S.path('a_1.bb'))
    S.check(len(own) == 3, 'statements of the recipe')
    inc = [x for x in st.GetItemsFor() if x.Origin != S.path('a_1.bb')]
    S.check(len(inc) == 2, 'statements of the include')
    S.cover('include')
    new = sts[0][1]
    check(S, own[0], new, sts[0][2], sts[0][3], 'the first statement')
    check(S, own[1], new, None, None, 'the include')
    new = sts[0][1] or sts[3][1]
    check(S, own[2], new, sts[3][2], sts[3][3], 'the last statement')
    new = sts[1][1]
    check(S, inc[0], new, sts[1][2], sts[1][3], 'the first of the include')
    new = new or sts[2][1]
    check(S, inc[1], new, sts[2][2], sts[2][3], 'the last of the include')
    return [x.OverrideDelimiter for x in own + inc]


def units(tier):
    q = tier == 'quick'
    out = [('file', [k, n, f, o]) for f in KINDS for k in ((1, 2, 3) if q else (1, 2, 3, 4)) for n in ((1, 2) if q else (1, 2, 3)) for o in (0, 1) if not (q and k == 3 and n == 2)]
    out += [('included', [s, 1 if q else 2]) for s in ('require x.inc', 'include x.inc', 'inherit x', 'INHERIT += "x"')]
    return out
