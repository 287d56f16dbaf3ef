"""C01: the items of a file partition its text, line by line"""
from props.common import *

COVERS = ['one', 'many', 'multiline', 'noeol', 'blocks', 'control', 'included']
BOUNDS = {
    'quick': 'files of up to 4 arbitrary characters; files of up to 3 lines, each of one of 13 shapes (assignment, comment, continuation, function '
             'header, closing brace, def, indented, blank, arbitrary) with 1 arbitrary character in each (2 lines) or in one of them (3 lines), with and without final newline; up to 4 statements out of 10 kinds of up to 4 lines each (comments, functions, python, continued assignments, blank lines), '
             'and control characters (vertical tab, form feed, separators, escape, next line, non-breaking blank) anywhere in up to 3 characters of one of them; the same kinds around and in an included, required or inherited file',
    'thorough': 'files of up to 6 arbitrary characters; files of up to 4 lines of these shapes with up to 2 arbitrary characters in each (1, 2 lines), 1 in each (3 lines) or in one of them (4 lines)',
}
ASSUMPTIONS = ['no carriage return, which text mode translates']

SHAPES = ['free', 'var', 'comment', 'cont', 'contws', 'func', 'close', 'def', 'indent', 'blank', 'open', 'pyfunc', 'inline']


def shape(S, kind, i, n):
    s = S.str('l%d' % i, n, LINE)
    if kind == 'free':
        return s
    if kind == 'var':
        return 'A = "' + s + '"'
    if kind == 'comment':
        return '#' + s
    if kind == 'cont':
        return 'B = "' + s + '\\'
    if kind == 'contws':
        return s + '\\ '
    if kind == 'func':
        return 'do_x' + s + '() {'
    if kind == 'pyfunc':
        return 'python () {'
    if kind == 'close':
        return s + '}'
    if kind == 'open':
        return ' {' + s
    if kind == 'def':
        return 'def f' + s + '(d):'
    if kind == 'indent':
        return '    ' + s
    if kind == 'inline':
        return 'C = "${@' + s + '}"'
    return ''


def check(S, text):
    S.write('a_1.0.bb', text)
    p = S.path('a_1.0.bb')
    items = stash(S).AddFile(p)
    joined = ''
    for it in items:
        S.check(it.InFileLine == joined.count('\n') + 1, 'line number in file is exact')
        S.check(it.Line == it.InFileLine, 'overall line of a file without includes is the line in the file')
        S.check(it.Origin == p, 'origin is the file')
        if it.RealRaw.count('\n') > 1:
            S.cover('multiline')
        joined = joined + it.RealRaw
    S.check(joined == text, 'concatenated raw texts are the file')
    S.cover('one' if len(items) < 2 else 'many')
    if not text.endswith('\n'):
        S.cover('noeol')
    return [(x.CLASSIFIER, x.RealRaw, x.InFileLine) for x in items]


def free(S, n):
    return check(S, S.str('t', n, TEXT))


def lines(S, first, k, sym, n):
    text = ''
    for i in range(k):
        kind = first if i == 0 else S.choice('k%d' % i, SHAPES)
        if i:
            text = text + '\n'
        text = text + shape(S, kind, i, n if sym in (i, -1) else 0)
    if S.bool('eol'):
        text = text + '\n'
    return check(S, text)


CTRL = 'a\x0b\x0c\x1b\x1c\x1d\x1e\x1f\x85\xa0'
BLOCKS = {
    'var': 'A = "%s"\n',
    'cont': 'A = "%s \\\n  b \\\n"\n',
    'comment': '# %s\n',
    'comments': '# %s\n#\n# x\n',
    'func': 'do_x() {\n  if a; then {\n  b %s }\n}\n',
    'pyfunc': 'python x() {\n    a = {}\n%s\n}\n',
    'def': 'def f(d):\n    a%s\n\n    return\n',
    'def1': 'def g(d):\n    a%s\n',
    'blank': '%s\n',
    'inline': 'B = "${@x(%s)}"\n',
}


def fill(S, kind, i, n, alpha):
    a, b = BLOCKS[kind].split('%s')
    return a + S.str('t%d' % i, n, alpha) + b


def blocks(S, first, second, k, sym, alpha, n):
    """statements of several lines after each other"""
    text = ''
    for i in range(k):
        kind = (first, second)[i] if i < 2 else S.choice('k%d' % i, list(BLOCKS))
        text = text + fill(S, kind, i, n if i == sym else 0, CTRL if alpha else minus(LINE, '{}\\'))
        if alpha:
            S.cover('control')
    S.cover('blocks')
    if S.bool('noeol'):
        text = text[:-1]
    return check(S, text)


def included(S, stm, first, second, inner, n):
    """a file that includes another one in the middle: both are complete"""
    a = fill(S, first, 0, n, minus(LINE, '{}\\'))
    b = fill(S, second, 1, 0, LINE)
    c = fill(S, inner, 2, n, minus(LINE, '{}\\'))
    if S.bool('noeol'):
        c = c[:-1]
    f = 'classes/i.bbclass' if stm == 'inherit i' else 'i.inc'
    S.write('conf/layer.conf', '')
    S.write(f, c)
    text = a + stm + '\n' + b
    S.write('a_1.0.bb', text)
    p, q = S.path('a_1.0.bb'), S.path(f)
    st = stash(S)
    st.AddFile(p)
    items = st.GetItemsFor()
    joined = {p: '', q: ''}
    for it in items:
        S.check(it.InFileLine == joined[it.Origin].count('\n') + 1, 'line number in file is exact')
        joined[it.Origin] = joined[it.Origin] + it.RealRaw
    S.check(joined[p] == text, 'concatenated raw texts are the file')
    S.check(joined[q] == c, 'concatenated raw texts are the included file')
    S.cover('included')
    return [(x.CLASSIFIER, x.RealRaw, x.InFileLine, x.Line) for x in items]


def units(tier):
    q = tier == 'quick'
    out = [('free', [n]) for n in range(0, 5 if q else 7)]
    for f in SHAPES:
        out += [('lines', [f, 1, 0, n]) for n in (1, 2, 3)]
        out += [('lines', [f, 2, -1, 1])]
        out += [('lines', [f, 3, s, 1]) for s in (1, 2)]
        if not q:
            out += [('lines', [f, 2, -1, 2]), ('lines', [f, 3, -1, 1]), ('lines', [f, 4, 0, 0])]
            out += [('lines', [f, 4, s, 1]) for s in (0, 1, 2, 3)]
    for f in BLOCKS:
        for g in BLOCKS:
            out += [('blocks', [f, g, 2, 0, True, 1]), ('blocks', [f, g, 3 if q else 4, 1, False, 0 if q else 1])]
            if not q:
                out += [('blocks', [f, g, 3, x, a, 1]) for x in (0, 1, 2) for a in (False, True)]
        out += [('blocks', [f, 'var', 2, 0, a, n]) for a in (False, True) for n in ((2,) if q else (2, 3))]
    for f in BLOCKS:
        for s in ('require i.inc', 'include i.inc', 'inherit i'):
            out += [('included', [s, f, g, h, 0 if q else 1]) for g, h in (('var', f), (f, 'func'), ('comment', 'def'))]
    return out
