"""C03: every assignment becomes one variable item carrying its exact name, operator and value"""
from props.common import *

COVERS = ['append', 'plain', 'multi', 'escaped', 'follow']
BOUNDS = {
    'quick': 'names of up to 3 arbitrary characters (first one an upper case letter) and 3 longer ones, all 8 operators, up to 2 arbitrary blanks (space, tab) '
             'before and after the operator and 1 after the value, values of up to 3 arbitrary characters alone and up to 2 around 20 statement-like texts (in front of 11 kinds of text) or 8 escapes, '
             'continued over up to 3 lines',
    'thorough': 'the same with names of up to 4, values of up to 5 and fillers of up to 3 arbitrary characters',
}
ASSUMPTIONS = ['values are printable ASCII, tab and a letter outside ASCII without unescaped quotes and inline python, and do not end with an escape; names are no statement keywords (INHERIT, EXPORT_FUNCTIONS)']

OPS = ['=', '?=', '??=', ':=', '+=', '=+', '.=', '=.']
NAMEC = UPPER + DIGIT + LOWER + '-+./~'
VALC = minus(LINE, '"\\')
WORDS = ['', 'python', 'addtask a', 'def ', '\t# x', 'EXPORT_FUNCTIONS a', '() {', '{', '}', '#', ' = ', 'inherit x', 'def f():', 'export A', '${', '${B}', 'include y', 'unset Z', 'A[b] = c', "'"]


TAILS = ['ZZ = "1"\n', '\nZZ = "1"\n', '${X} = "1"\n', '  ZZ = "1"\n', '\tx\n', '}\n', '# c\n', 'do_a() {\n  b\n}\n', '    return x\n\n', '"\n', '']


def one(S, op, name, val, pre, post, end, quote='"', tail=TAILS[0]):
    raw = val
    # every backslash is represented by the escape character
    val = raw.replace('\\', '\x1b')
    line = name + pre + op + post + quote + raw + quote + end + '\n'
    S.write('a_1.0.bb', line + tail)
    p = S.path('a_1.0.bb')
    items = stash(S).AddFile(p)
    if tail is TAILS[0]:
        S.check(len(items) == 2 and items[1].CLASSIFIER == 'Variable', 'one item per assignment')
    S.check(''.join([x.RealRaw for x in items]) == line + tail, 'the following text is not part of it')
    v = items[0]
    S.check(v.CLASSIFIER == 'Variable', 'assignment is a variable')
    S.check(v.RealRaw == line, 'raw text of the assignment')
    S.check(v.Raw == line, 'raw text without inline code')
    S.check(v.VarName == name, 'variable name')
    S.check(v.RawVarName == name and v.VarNameComplete == name and v.VarNameCompleteNoModifiers == name, 'complete variable name')
    S.check(v.SubItem == '' and v.SubItems == [], 'no override')
    S.check(v.VarOp == pre + op + post, 'operator')
    S.check(v.VarValue == quote + val + quote + end, 'value')
    if quote == '"':
        S.check(v.VarValueStripped == val, 'stripped value')
    app = op in ('+=', '=+', '.=', '=.')
    S.cover('append' if app else 'plain')
    S.check(v.IsAppend() == app, 'append classification')
    S.check(v.AppendOperation() == ([pre + op + post] if app else []), 'append operation')
    S.check(v.IsImmediateModify(), 'immediate modification')
    S.check(not v.IsMultiLine(), 'single line')
    S.check(v.Line == 1 and v.InFileLine == 1 and all([x.Line == 2 for x in items[1:2]]), 'lines')
    return [v.VarName, v.VarOp, v.VarValue, v.VarValueStripped]


def name(S, op, n, extra):
    nm = S.str('n0', 1, UPPER) + S.str('n', n, NAMEC) + extra
    return one(S, op, nm, 'v', ' ', ' ', '')


def blanks(S, op, a, b, c):
    return one(S, op, 'FOO_BAR', S.str('v', 1, VALC), S.str('a', a, ' \t'), S.str('b', b, ' \t'), S.str('c', c, ' \t'))


def value(S, op, n, quote='"'):
    v = S.str('v', n, minus(VALC, "'") if quote == "'" else VALC)
    S.assume('${@' not in v)
    return one(S, op, 'A', v, ' ', ' ', '', quote)


def word(S, op, w, n, m):
    v = S.str('v', n, VALC) + WORDS[w] + S.str('w', m, VALC)
    S.assume('${@' not in v)
    return one(S, op, 'A', v, ' ', ' ', '')


def follow(S, op, w, t, n, m):
    """statement-like values in front of any statement"""
    v = S.str('v', n, VALC) + WORDS[w] + S.str('w', m, VALC)
    S.assume('${@' not in v)
    S.cover('follow')
    return one(S, op, 'A', v, ' ', ' ', '', tail=TAILS[t])


ESC = ['\\"', '\\n', '\\\\', '\\$', '\\"\\"', '\\" = \\"', '\\" {', '\\"x', '\\x41']


def escaped(S, op, i, n, m):
    """values with escaped quotes and other escapes"""
    v = S.str('v', n, VALC) + ESC[i] + S.str('w', m, VALC)
    S.assume('${@' not in v)
    S.cover('escaped')
    return one(S, op, 'A', v, ' ', ' ', '')


def multi(S, n, k):
    """a value continued over several lines is one item and keeps all of its words"""
    parts = [S.str('p%d' % i, n, minus(ALNUM, '')) for i in range(k)]
    ws = S.str('ws', 1, ' \t')
    sp = ' ' if S.bool('trail') else ''
    text = 'A' + ' = "' + (' \\' + sp + '\n' + ws).join(parts) + '"\n'
    S.write('a_1.0.bb', text + 'B = "1"\n')
    items = stash(S).AddFile(S.path('a_1.0.bb'))
    S.check(len(items) == 2, 'a continued assignment is one item')
    v = items[0]
    S.check(v.CLASSIFIER == 'Variable' and v.VarName == 'A', 'variable')
    S.check(v.RealRaw == text, 'raw text spans all lines')
    if not sp:
        S.check(v.IsMultiLine(), 'multiline')
    S.check(v.get_items() == parts, 'all parts of the value are kept')
    S.check(items[1].InFileLine == k + 1 and items[1].Line == k + 1, 'next line number')
    S.cover('multi')
    return [v.VarValue, v.get_items()]


def units(tier):
    q = tier == 'quick'
    out = []
    for op in OPS:
        for n in range(0, 3 if q else 4):
            out.append(('name', [op, n, '']))
        out += [('name', [op, 1, x]) for x in ('_URI', '_FOO_BAR', '-x.y')]
        out += [('blanks', [op, a, b, c]) for a in (0, 1, 2) for b in (0, 1, 2) for c in (0, 1)]
        out += [('value', [op, n]) for n in range(0, 4 if q else 6)]
        out += [('value', [op, 2, "'"])]
    for i, _ in enumerate(WORDS):
        for op in (('=', '+=') if q else OPS):
            out += [('word', [op, i, 1, 1]), ('word', [op, i, 0, 2]), ('word', [op, i, 2, 0])]
            if not q:
                out += [('word', [op, i, 3, 0]), ('word', [op, i, 0, 3])]
    out += [('follow', ['=' if t % 2 else '+=', i, t, n, m]) for i, _ in enumerate(WORDS) for t in range(1, len(TAILS)) for n, m in (((0, 1),) if q else ((0, 1), (1, 1), (2, 0), (0, 2)))]
    for i, _ in enumerate(ESC):
        for op in OPS:
            out += [('escaped', [op, i, n, m]) for n, m in (((0, 1), (1, 1)) if q else ((0, 1), (1, 2), (2, 1), (2, 2)))]
    out += [('multi', [n, k]) for n in (1, 2) for k in (2, 3)]
    return out
