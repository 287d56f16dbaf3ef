"""C04: every other statement becomes one item of its kind carrying its exact parts"""
from props.common import *

COVERS = ['escaped', 'include', 'inherit', 'export', 'addtask', 'deltask', 'unset', 'flag', 'expfn', 'pylib', 'frag', 'incall', 'comment', 'def', 'wordy']
BOUNDS = {
    'quick': 'every statement kind, each name in it up to 3 arbitrary characters (or 1 around a keyword of the language), 0 to 3 names in lists, up to 2 arbitrary blanks (space, tab) '
             'where blanks are allowed, values of up to 3 arbitrary characters (or up to 1 before and after 15 statement-like texts), 10 kinds of text before and after the statement, comment blocks and python blocks of up to 3 lines with up to 2 arbitrary characters each',
    'thorough': 'the same with names of up to 5 and values of up to 5 arbitrary characters, blocks of up to 4 lines',
}
ASSUMPTIONS = ['names consist of the characters the language allows; values contain no quotes and no inline python; no line continuation; included files do not exist']

TASK = ALNUM + '_-'
VALC = minus(LINE, '"\\')
OPS = ['=', '?=', '??=', ':=', '+=', '=+', '.=', '=.']


def ws(S, name, n):
    return S.str(name, n, ' \t')


HEADS = ['YY = "1"\n', '', 'do_a() {\n  x\n}\n', 'YY = "\\\n  b"\n', '\n', '# c\n', 'def f():\n    x\n', '  # c\n']
TAILS = ['ZZ = "1"\n', '', 'do_a() {\n  x\n}\n', 'def f():\n    x\n', '${X} = "1"\n', '_z = "1"\n', '\nZZ = "1"\n', '    return x\n', '# c\n', '  # c\n']


def parse(S, text, kind, heads=len(HEADS), tails=len(TAILS)):
    """the statement is exactly one item of its kind, whatever is before and after it"""
    c = S.choice('ctx', list(range(max(heads, tails))))
    h, t = HEADS[c % heads], TAILS[c % tails]
    if h.startswith('def'):
        # an indented line belongs to the function
        S.assume(text[0] not in ' \t.@%-')
    S.write('a_1.0.bb', h + text + t)
    items = stash(S).AddFile(S.path('a_1.0.bb'))
    S.check(''.join([x.RealRaw for x in items]) == h + text + t, 'no text is lost')
    n = 1 if h else 0
    S.check(len(items) > n, 'one item for one statement')
    it = items[n]
    if c == 0:
        S.check(len(items) == 3, 'one item for one statement')
        S.check(items[0].CLASSIFIER == 'Variable' and items[2].CLASSIFIER == 'Variable', 'neighbours are untouched')
    S.check(it.CLASSIFIER == kind, 'kind of the statement')
    S.check(it.RealRaw == text and it.Raw == text, 'raw text')
    n = len(h.split('\n'))
    S.check(it.Line == n and it.InFileLine == n, 'line')
    S.check(it.Origin == S.path('a_1.0.bb'), 'origin')
    return it


def include(S, stm, w0, w1, n, extra):
    nm = S.str('n0', 1, ALNUM + '.') + S.str('n', n, ALNUM + '-._+@%~,:/') + extra
    it = parse(S, ws(S, 'w0', w0) + stm + ws(S, 'w1', w1) + nm + '\n', 'Include')
    S.check(it.Statement == stm, 'statement')
    S.check(it.IncName == nm, 'name of the file')
    S.check(it.FileIncluded == '', 'missing file')
    S.check(it.get_items() == [nm, stm], 'items')
    S.cover('include')
    return it.get_items()


def names(S, alpha, k, n, sep):
    out = []
    text = ''
    for i in range(k):
        x = S.str('x%d' % i, n, alpha)
        out.append(x)
        text = text + (ws(S, 's%d' % i, sep) if i else '') + x
    return out, text


def inherit(S, stm, w0, w1, k, n, sep):
    cl, text = names(S, ALNUM + '_-', k, n, sep)
    it = parse(S, ws(S, 'w0', w0) + stm + ws(S, 'w1', w1) + text + '\n', 'Inherit')
    S.check(it.Statement == stm, 'statement')
    S.check(it.Class == text, 'classes')
    S.check(it.get_items() == cl, 'single classes')
    S.check(len(it.FilePaths) == 0, 'no class found')
    S.cover('inherit')
    return it.get_items()


def inheritg(S, op, q, w1, k, n, sep):
    cl, text = names(S, ALNUM + '_-', k, n, sep)
    it = parse(S, 'INHERIT' + ws(S, 'w0', w1) + op + ws(S, 'w1', w1) + q + text + q + '\n', 'Inherit')
    S.check(it.Statement == 'INHERIT', 'statement')
    S.check(it.Class == text, 'classes')
    S.check(it.get_items() == cl, 'single classes')
    return it.get_items()


ESC = ['\\"', '\\n', '\\\\', '\\"\\"', '\\" = \\"', "'", ' = "', '=']


def escaped(S, n, i, a, b):
    """exported values with escapes"""
    nm = S.str('n0', 1, UPPER + LOWER) + S.str('n', n, ALNUM + '_-')
    val = S.str('v', a, VALC) + ESC[i] + S.str('w', b, VALC)
    S.assume('${@' not in val)
    q = S.choice('q', ['"', "'"]) if i < 5 else '"'
    op = S.choice('op', [' = ', '=', ' ?= ', ' += ', ' ??= ', '.= ', ' =. ', ':='])
    S.assume(q == '"' or "'" not in val)
    it = parse(S, 'export ' + nm + op + q + val + q + '\n', 'Export')
    S.check(it.Name == nm, 'name')
    # every backslash is represented by the escape character
    S.check(it.Value == val.replace('\\', '\x1b'), 'value')
    S.cover('escaped')
    return it.get_items()


def export(S, w0, w1, n, m):
    nm = S.str('n0', 1, UPPER + LOWER) + S.str('n', n, ALNUM + '_-')
    if m < 0:
        it = parse(S, ws(S, 'w0', w0) + 'export' + ws(S, 'w1', w1) + nm + ws(S, 'w2', w0) + '\n', 'Export')
        val = ''
    else:
        val = S.str('v', m, VALC)
        S.assume('${@' not in val)
        it = parse(S, ws(S, 'w0', w0) + 'export' + ws(S, 'w1', w1) + nm + ws(S, 'w2', w0) + '=' + ws(S, 'w3', w0) + '"' + val + '"\n', 'Export')
    S.check(it.Name == nm, 'name')
    S.check(it.Value == val, 'value')
    S.check(it.get_items() == [nm, val], 'items')
    S.cover('export')
    return it.get_items()


def task(S, name, n, extra):
    return S.str(name + '0', 1, ALNUM) + extra + S.str(name, n, TASK)


def addtask(S, order, kb, ka, n, w, extra, com):
    nm = task(S, 'n', n, extra)
    b, bt = names2(S, 'b', kb, n, w, extra)
    a, at = names2(S, 'a', ka, n, w, extra)
    bt = (ws(S, 'wb', w) + 'before' + ws(S, 'wb2', w) + bt) if kb else ''
    at = (ws(S, 'wa', w) + 'after' + ws(S, 'wa2', w) + at) if ka else ''
    c = ' # ' + S.str('c', com, minus(LINE, '\\')) if com else ''
    S.assume('${@' not in c)
    it = parse(S, ws(S, 'w0', w - 1) + 'addtask' + ws(S, 'w1', w) + nm + (at + bt if order else bt + at) + c + '\n', 'TaskAdd')
    S.check(it.FuncName == nm, 'task')
    S.check(it.Before == b, 'before')
    S.check(it.After == a, 'after')
    S.check(it.get_items() == [nm] + b + a, 'items')
    if com and (ka or kb):
        S.check(it.Comment == c[1:], 'comment')
    S.cover('addtask')
    return [it.FuncName, it.Before, it.After, it.Comment]


def names2(S, p, k, n, w, extra):
    out = []
    text = ''
    for i in range(k):
        x = task(S, p + str(i), n, extra)
        out.append(x)
        text = text + (ws(S, p + 's%d' % i, w) if i else '') + x
    return out, text


def deltask(S, w0, w1, n, extra):
    nm = task(S, 'n', n, extra)
    it = parse(S, ws(S, 'w0', w0) + 'deltask' + ws(S, 'w1', w1) + nm + '\n', 'TaskDel')
    S.check(it.FuncName == nm, 'task')
    S.check(it.Comment == '' and it.get_items() == [nm], 'items')
    S.cover('deltask')
    return it.get_items()


def unset(S, w0, w1, n, f):
    nm = S.str('n0', 1, ALNUM + '_') + S.str('n', n, ALNUM + '_-:.+/~${}')
    fl = S.str('f', f, ALNUM + '_-+.@/') if f else ''
    it = parse(S, ws(S, 'w0', w0) + 'unset' + ws(S, 'w1', w1) + nm + ('[' + fl + ']' if f else '') + '\n', 'Unset')
    S.check(it.VarName == nm, 'variable')
    S.check(it.Flag == fl, 'flag')
    S.check(it.get_items() == [nm, fl], 'items')
    S.cover('unset')
    return it.get_items()


def flag(S, op, w, n, f, m):
    nm = S.str('n0', 1, ALNUM + '_') + S.str('n', n, ALNUM + '_-.:+/~${}')
    fl = S.str('f', f, ALNUM + '_-./@+')
    v = S.str('v', m, VALC)
    S.assume('${@' not in v)
    w0, w1 = ws(S, 'w0', w), ws(S, 'w1', w)
    it = parse(S, nm + '[' + fl + ']' + w0 + op + w1 + '"' + v + '"\n', 'FlagAssignment')
    S.check(it.VarName == nm, 'variable')
    S.check(it.Flag == fl, 'flag')
    S.check(it.VarOp == w0 + op + w1, 'operator')
    S.check(it.Value == '"' + v + '"', 'value')
    S.check(it.ValueStripped == v, 'stripped value')
    S.check([x.strip() for x in it.get_items()] == [nm.strip(), fl.strip(), op, v.strip()], 'items')
    S.cover('flag')
    return it.get_items()


def expfn(S, w1, k, n, sep):
    fn, text = names(S, ALNUM + '_-', k, n, sep)
    cls = S.choice('cls', ['cls', 'c.ls', 'c_l-s', 'C.bbclass', '.c', 'c.'])
    S.write(cls + '.bbclass', 'EXPORT_FUNCTIONS' + ws(S, 'w1', w1) + text + '\n')
    items = stash(S).AddFile(S.path(cls + '.bbclass'))
    S.check(len(items) == 1 and items[0].CLASSIFIER == 'FunctionExports', 'one item')
    S.check(items[0].FuncNames == text, 'names')
    S.check(items[0].get_items() == fn, 'functions')
    S.check(items[0].get_items_unaliased() == [cls + '-' + x for x in fn], 'functions of the class')
    S.cover('expfn')
    return items[0].get_items_unaliased()


def pylib(S, w0, w1, n, m):
    p = '${LAYERDIR}/' + S.str('p', n, ALNUM + '_-./')
    ns = S.str('n', m, ALNUM + '_.')
    it = parse(S, ws(S, 'w0', w0) + 'addpylib' + ws(S, 'w1', w1) + p + ws(S, 'w2', w1) + ns + '\n', 'AddPylib')
    S.check(it.Path == p and it.Namespace == ns and it.get_items() == [p, ns], 'path and namespace')
    S.cover('pylib')
    return it.get_items()


def frag(S, w, n):
    a, b, c = S.str('a', n, ALNUM + '_-./'), S.str('b', n, ALNUM + '_-'), S.str('c', n, ALNUM + '_-')
    it = parse(S, 'addfragments' + ws(S, 'w1', w) + a + ws(S, 'w2', w) + b + ws(S, 'w3', w) + c + '\n', 'AddFragements')
    S.check(it.get_items() == [a, b, c] and it.Path == a and it.Variable == b and it.Flagged == c, 'parts')
    S.cover('frag')
    return it.get_items()


def incall(S, w, n):
    f = S.str('f', n, minus(LINE, ' (\t\\'))
    S.assume('${@' not in f)
    it = parse(S, 'include_all' + ws(S, 'w1', w) + f + '\n', 'IncludeAll')
    S.check(it.File == f and it.get_items() == [f], 'file')
    S.cover('incall')
    return it.get_items()


def comment(S, k, n):
    """consecutive comment lines are one block"""
    ls = []
    for i in range(k):
        l = '#' + S.str('l%d' % i, n, minus(LINE, '\\'))
        S.assume('${@' not in l)
        ls.append(l)
    it = parse(S, '\n'.join(ls) + '\n', 'Comment', 5, 8)
    S.check(it.get_items() == ls + [''], 'lines of the comment')
    S.cover('comment')
    return it.get_items()


def icomment(S, n):
    """an indented comment is a comment of its own"""
    l = S.str('w0', 1, ' \t') + '#' + S.str('l', n, minus(LINE, '\\'))
    S.assume('${@' not in l)
    it = parse(S, l + '\n', 'Comment', 5, 8)
    S.check(it.get_items() == [l, ''], 'lines of the comment')
    return it.get_items()


def define(S, n, k, m, blank, ind=0):
    nm = S.str('n0', 1, ALNUM + '_') + S.str('n', n, ALNUM + '_')
    head = ws(S, 'ind', ind) + 'def ' + nm + S.str('w', blank, ' \t') + '(' + S.str('a', 1, minus(ALNUM, '')) + ')' + (' -> str' if blank > 1 else '') + ':'
    ls = [head]
    for i in range(k):
        l = S.str('i%d' % i, 1, ' \t') + S.str('l%d' % i, m, minus(LINE, '\\'))
        S.assume('${@' not in l)
        ls.append(l)
    if blank:
        ls.append('')
        ls.append('    return 1')
    it = parse(S, '\n'.join(ls) + '\n', 'PythonBlock', len(HEADS), 6)
    S.check(it.FuncName == nm, 'name of the function')
    S.check(it.get_items() == ls + [''], 'lines of the function')
    S.cover('def')
    return [it.FuncName, it.get_items()]


WORDS = ['def ', 'python', '() {', '{', '}', 'inherit x', 'def f():', 'export A', '${B}', 'include y', 'A[b] = c', '#', ' # x', ' = ', 'addtask']


def wordy(S, kind, i, n, m):
    """values that look like statements"""
    v = S.str('v', n, VALC) + WORDS[i] + S.str('w', m, VALC)
    S.assume('${@' not in v)
    if kind == 'export':
        it = parse(S, 'export A = "' + v + '"\n', 'Export')
        S.check(it.Name == 'A' and it.Value == v, 'name and value')
    elif kind == 'flag':
        it = parse(S, 'A[b] = "' + v + '"\n', 'FlagAssignment')
        S.check(it.VarName == 'A' and it.Flag == 'b' and it.ValueStripped == v, 'parts')
    elif kind == 'comment':
        it = parse(S, '#' + v + '\n', 'Comment', 5, 8)
        S.check(it.get_items() == ['#' + v, ''], 'lines of the comment')
    elif kind == 'addtask':
        it = parse(S, 'addtask a after b # ' + v + '\n', 'TaskAdd')
        S.check(it.FuncName == 'a' and it.After == ['b'] and it.Before == [] and it.Comment == '# ' + v, 'parts')
    S.cover('wordy')
    return it.get_items()


def units(tier):
    q = tier == 'quick'
    N = 3 if q else 5
    out = []
    for st in ('include', 'require'):
        for n in range(N):
            out += [('include', [st, 0, 1, n, '']), ('include', [st, 1, 2, n, '.inc'])]
        out += [('include', [st, 0, 1, 1, '${PN}.inc']), ('include', [st, 2, 1, 1, '/recipe-x/y_z.inc'])]
    for st in ('inherit', 'inherit_defer'):
        for k in (1, 2, 3):
            for n in range(1, N):
                out += [('inherit', [st, 0, 1, k, n, 1]), ('inherit', [st, 1, 2, k, n, 2])]
    for op in OPS:
        for qu in ('"', "'"):
            out += [('inheritg', [op, qu, w, k, n, 1]) for w in (0, 1) for k in (0, 1, 2) for n in (1, 2)]
    for w0, w1 in ((0, 1), (1, 2), (2, 1)):
        out += [('export', [w0, w1, n, m]) for n in range(N) for m in range(-1, N)]
        out += [('deltask', [w0, w1, n, e]) for n in range(N) for e in ('', 'before', 'after')]
        out += [('unset', [w0, w1, n, f]) for n in range(N) for f in range(0, N)]
        out += [('pylib', [w0, w1, n, m]) for n in range(1, N) for m in range(1, N)]
    for order in (0, 1):
        for kb in (0, 1, 2):
            for ka in (0, 1, 2):
                for e in ('', 'before', 'after', '_after_', '-before-'):
                    out += [('addtask', [order, kb, ka, 1, 1, e, 0])]
                    if not q:
                        out += [('addtask', [order, kb, ka, n, 2, e, 0]) for n in (0, 2, 3)]
                out += [('addtask', [order, kb, ka, 1, 2, '', c]) for c in (0, 2)]
                if not q:
                    out += [('addtask', [order, kb, ka, 2, 1, 'after', c]) for c in (1, 2, 3, 4)]
    for op in OPS:
        out += [('flag', [op, w, n, f, m]) for w in (0, 1) for n in (0, 1) for f in (1, 2) for m in range(N)]
    for k in (0, 1, 2, 3):
        out += [('expfn', [w, k, n, s]) for w in (1, 2) for n in range(1, N) for s in (1, 2)]
    for w in (1, 2):
        out += [('frag', [w, n]) for n in range(1, N)]
        out += [('incall', [w, n]) for n in range(1, N + 1)]
    for n in range(0, N):
        out += [('comment', [k, n]) for k in (1, 2, 3)]
        out += [('icomment', [n])]
        out += [('define', [1, k, n, b]) for k in (0, 1, 2) for b in (0, 1, 2)]
    out += [('define', [0, k, 1, b, i]) for k in (1, 2) for b in (0, 1) for i in (1, 2)]
    if not q:
        out += [('define', [n, 1, 1, 1]) for n in (0, 2, 3)]
    out += [('wordy', [k, i, n, m]) for k in ('export', 'flag', 'comment', 'addtask') for i, _ in enumerate(WORDS) for n, m in (((1, 0), (0, 1)) if q else ((1, 1), (0, 2), (2, 0)))]
    for i, _ in enumerate(ESC):
        out += [('escaped', [1, i, a, b]) for a, b in (((0, 1), (1, 1), (1, 2)) if q else ((0, 1), (1, 1), (2, 2), (0, 3)))]
    return out
