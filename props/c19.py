"""C19: value lists are split into exactly their words"""
from props.common import *

COVERS = ['free', 'continued', 'version', 'override', 'lists', 'empty', 'escape']
BOUNDS = {
    'quick': 'arbitrary values of up to 6 characters (of 9, including blanks, tabs and quotes inside), values of up to 3 arbitrary words of up to 2 characters separated by any of 7 separators (blanks, tabs, continuation with and without blanks), '
             'with and without versions of up to 3 arbitrary characters',
    'thorough': 'arbitrary values of up to 8 characters, up to 4 words, versions of up to 5 characters',
}
ASSUMPTIONS = ['values have no references and no inline code', 'a continuation separates words']

SEPS = [' ', '  ', '\t', ' \\\n', '\\\n', ' \\\n    ', '\t\\\n\t \\\n ']
WORD = 'abx.-_+1/$={}(%'


def wordsof(t):
    out = []
    cur = ''
    for c in t:
        if c in ' \t\n\x1b':
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur = cur + c
    if cur:
        out.append(cur)
    return out


def item(S, text):
    S.write('a_1.bb', text)
    p = S.path('a_1.bb')
    st = stash(S)
    items = st.AddFile(p)
    S.check(len(items) == 1 and items[0].CLASSIFIER == 'Variable', 'one variable')
    return st, p, items[0]


def free(S, n):
    """any text is split at whitespace"""
    lean(S)
    t = S.str('t', n, 'abx \t\'-=1')
    st, p, x = item(S, 'A = "' + t + '"\n')
    exp = wordsof(t)
    S.cover('free' if exp else 'empty')
    S.check(x.get_items() == exp, 'words of the value')
    S.check([y for y in st.SafeLineSplit(t) if y] == exp, 'words by the stash')
    S.check(x.safe_linesplit(t) == exp, 'words by the item')
    S.check(st.ExpandVar(filename=p)['A'] == exp, 'words of the expanded value')
    return x.get_items()


def direct(S, n):
    """text given by the caller"""
    m = S.mod('oelint_parser.cls_item')
    t = S.str('t', n, 'ab\\ \t\n\x1b"')
    exp = wordsof(t)
    S.check(m.Item.safe_linesplit(t) == exp, 'words')
    x = m.Variable('A', '"v w"', ' = ', origin='/x', line=1, infileline=1, rawtext='', realraw='', inline_blocks=[])
    o = t.strip('"')
    S.cover('override')
    S.check(x.get_items(override=t) == (wordsof(o) if o else ['v', 'w']), 'words of the text given instead')
    return m.Item.safe_linesplit(t)


def escape(S, n, m):
    """escaped characters do not separate words"""
    lean(S)
    a, b = S.str('a', n, 'ab '), S.str('b', m, '14 ')
    st, p, x = item(S, 'A = "' + a + '\\x' + b + '"\n')
    exp = []
    cur = ''
    for c in a + '!' + b:
        if c == ' ':
            if cur:
                exp.append(cur)
            cur = ''
        else:
            cur = cur + ('\x1bx' if c == '!' else c)
    exp.append(cur)
    S.cover('escape')
    S.check(x.get_items() == [y for y in exp if y], 'words of the value')
    return x.get_items()


def seps(S, n, k, lead, trail):
    """words separated by anything"""
    lean(S)
    w = [S.str('w%d' % i, n, WORD) for i in range(k)]
    S.assume(not [y for y in w if '${' in y])
    t = lead
    for i, y in enumerate(w):
        t = t + (S.choice('s%d' % i, SEPS) if i else '') + y
    t = t + trail
    st, p, x = item(S, 'A = "' + t + '"\n')
    S.cover('continued')
    S.check(x.get_items() == w, 'words of the value')
    S.check(st.ExpandVar(filename=p)['A'] == w, 'words of the expanded value')
    S.check([y for y in st.SafeLineSplit(x.VarValueStripped) if y] == w, 'words by the stash')
    return x.get_items()


def versions(S, n, k, m, gap):
    """versions disappear, and nothing else"""
    exp = []
    full = []
    t = ''
    for i in range(k):
        w = S.str('w%d' % i, n, 'abx.-')
        t = t + (S.choice('s%d' % i, [' ', ' \\\n ']) if i else '') + w
        exp.append(w)
        full.append(w)
        if S.bool('v%d' % i):
            v = S.str('ver%d' % i, m, ' =<>1.a{}$')
            S.assume('${' not in v)
            t = t + gap + '(' + v + ')'
            f = wordsof('(' + v + ')')
            if gap.strip(' \t\\\n') == gap:
                full[-1] = full[-1] + f[0]
                f = f[1:]
            full = full + f
            S.cover('version')
    st, p, x = item(S, 'RDEPENDS = "' + t + '"\n')
    S.check(x.get_items(versioned=True) == exp, 'words without versions')
    S.check(x.get_items() == full, 'all words')
    return x.get_items(versioned=True)


def lists(S, kind, n, k):
    """lists of other statements"""
    w = [S.str('w%d' % i, n, 'abx_1') for i in range(k)]
    S.assume(all([y[0] in 'abx' and y not in ('before', 'after') for y in w]))
    sp = [S.choice('s%d' % i, [' ', '  ', '\t', ' \\\n ']) for i in range(k)]
    t = ''
    for i, y in enumerate(w):
        t = t + sp[i] + y
    S.write('a_1.bb', kind + t + '\n')
    x = stash(S).AddFile(S.path('a_1.bb'))[0]
    S.cover('lists')
    S.check(x.get_items() == w, 'words of the list')
    return x.get_items()


def units(tier):
    q = tier == 'quick'
    out = [('free', [n]) for n in range(0, 7 if q else 9)]
    out += [('direct', [n]) for n in range(0, 6 if q else 8)]
    out += [('escape', [n, m]) for n in (0, 1, 2) for m in (0, 1, 2)]
    out += [('seps', [n, k, l, t]) for n, k in (((1, 2), (2, 2), (1, 3)) if q else ((1, 2), (3, 2), (2, 3), (1, 4))) for l, t in (('', ''), (' ', ' '), ('\\\n', '\\\n'), (' \\\n  ', ' \\\n'))]
    out += [('versions', [n, k, m, g]) for n, k, m in (((1, 1, 3), (1, 2, 2), (1, 3, 1)) if q else ((1, 1, 5), (2, 2, 3), (1, 3, 2))) for g in (' ', '', '  ', '\t', ' \\\n ')]
    out += [('lists', [x, n, k]) for x in ('inherit', 'EXPORT_FUNCTIONS', 'inherit_defer') for n, k in ((1, 1), (2, 1), (2, 2), (1, 3))]
    return out
