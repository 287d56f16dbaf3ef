"""C05: functions are recognised with their flags, name and exact body"""
from props.common import *

COVERS = ['python', 'fakeroot', 'anonymous', 'nested', 'override', 'special', 'braces']
BOUNDS = {
    'quick': 'every combination of the python and fakeroot markers, names of up to 3 arbitrary characters or with an override, overrides of up to 2 arbitrary characters (including dots, dashes, plus signs) with references, '
             'up to 2 arbitrary blanks in the header, bodies of up to 3 lines with up to 2 arbitrary characters each, with and without balanced nested braces, bodies of up to 2 lines of 3 characters with any balanced arrangement of braces',
    'thorough': 'the same with names of up to 4, body lines of up to 3 arbitrary characters and up to 4 lines',
}
ASSUMPTIONS = ['the header line ends after its opening brace, the closing brace is on a line of its own and braces in the body are balanced; no inline python, no line continuation']

BODY = minus(LINE, '{}\\')
HEADS = [('', False, False), ('python ', True, False), ('fakeroot ', False, True), ('fakeroot python ', True, True), ('python fakeroot ', True, True)]


def dedent(lines):
    """reference: remove the common leading whitespace, blank lines become empty"""
    margin = None
    for l in lines:
        if not l.strip(' \t'):
            continue
        ind = l[:len(l) - len(l.lstrip(' \t'))]
        if margin is None:
            margin = ind
        else:
            k = 0
            while k < len(margin) and k < len(ind) and margin[k] == ind[k]:
                k += 1
            margin = margin[:k]
    out = []
    for l in lines:
        if not l.strip(' \t'):
            out.append('')
        else:
            out.append(l[len(margin or ''):])
    return out


def check(S, head, nm, shown, sub, ws1, ws2, body, tail='ZZ = "1"\n', ind=''):
    text = ind + head[0] + nm + ws1 + '()' + ws2 + '{\n' + ''.join([b + '\n' for b in body]) + '}\n'
    S.write('a_1.0.bb', 'YY = "1"\n' + text + tail)
    items = stash(S).AddFile(S.path('a_1.0.bb'))
    S.check(len(items) == (3 if tail else 2), 'one item for the function')
    f = items[1]
    S.check(f.CLASSIFIER == 'Function', 'function is a function')
    S.check(f.RealRaw == text, 'raw text of the function')
    S.check(f.IsPython == head[1], 'python marker')
    S.check(f.IsFakeroot == head[2], 'fakeroot marker')
    S.check(f.FuncName == shown, 'function name')
    S.check(f.SubItems == sub, 'overrides')
    S.check(f.FuncNameComplete == nm or not nm, 'complete name')
    S.check(f.IsAppend() == ('append' in sub or 'prepend' in sub), 'append')
    S.check(f.InFileLine == 2, 'line')
    if tail:
        S.check(items[2].CLASSIFIER == 'Variable' and items[2].InFileLine == len(body) + 4, 'the next statement is not part of the function')
    if head[1]:
        S.cover('python')
    if head[2]:
        S.cover('fakeroot')
    return f


def name(S, h, n, w1, w2):
    nm = S.str('n0', 1, LOWER) + S.str('n', n, LOWER + UPPER + DIGIT)
    S.assume(not nm.startswith('pkg_'))
    f = check(S, HEADS[h], nm, nm, [], S.str('w1', w1, ' \t'), S.str('w2', w2, ' \t'), ['    x'])
    return [f.FuncName, f.FuncBody, f.FuncBodyRaw]


def override(S, h, n, mod):
    nm = 'do_' + S.str('n', n, LOWER)
    f = check(S, HEADS[h], nm + ':' + mod, nm, [mod], ' ', ' ', ['    x'])
    S.cover('override')
    return [f.FuncName, f.SubItem]


NAME = LOWER + UPPER + DIGIT + '.+-'


def special(S, h, n, d, k):
    """names with every character the language allows, and overrides with references"""
    o = S.str('o', n, NAME)
    sub = ['${PN}' + o, '${PN}-' + o, o + '${X}', 'x.y+' + o + '-z'][k]
    nm = 'do_A' + ('' if d == ':' else o) + ':' + sub if d != '' else 'do_${X}' + o + '.a'
    shown, subs = (nm.partition(':')[0], [sub]) if d != '' else (nm, [])
    f = check(S, HEADS[h], nm, shown, subs, S.str('w', 1, ' \t'), ' ', ['    x ${Y}', '  y'])
    S.check(f.FuncBodyRaw == '\n  x ${Y}\ny\n', 'function body')
    S.check(f.get_items() == ['', '  x ${Y}', 'y', ''], 'lines of the function body')
    S.cover('special')
    return [f.FuncName, f.SubItems, f.FuncBodyRaw]


def anonymous(S, h, w1):
    f = check(S, HEADS[h], '', '', [], S.str('w1', w1, ' \t'), ' ', ['    x'])
    S.cover('anonymous')
    return [f.FuncName]


def body(S, k, n, nested, last):
    lines = []
    for i in range(k):
        l = S.str('b%d' % i, n, BODY)
        S.assume('${@' not in l)
        lines.append(l)
    if nested == 1:
        lines.insert(1, '  if x {')
        lines.append('  }')
        S.cover('nested')
    elif nested == 2:
        lines.insert(0, 'a ${B} { c }')
        S.cover('nested')
    f = check(S, HEADS[0], 'do_a', 'do_a', [], ' ', ' ', lines, tail='' if last else 'ZZ = "1"\n')
    # the text between the braces without the common indentation
    exp = dedent(lines + [''])
    S.check(f.FuncBodyRaw == '\n' + '\n'.join(exp), 'function body')
    S.check(f.get_items() == [''] + exp, 'lines of the function body')
    flat = ''.join(lines)
    S.check(f.FuncBody.strip() == flat.strip() or '\x1b' in f.FuncBody, 'flattened body')
    return [f.FuncBodyRaw, f.FuncBody, f.FuncBodyStripped]


def braces(S, h, k, n, last):
    """any balanced arrangement of braces"""
    lines = [S.str('b%d' % i, n, '{}a #"') for i in range(k)]
    level = 0
    for l in lines:
        for c in l:
            level += 1 if c == '{' else -1 if c == '}' else 0
            S.assume(level >= 0)
        S.assume('${@' not in l)
    S.assume(level == 0)
    f = check(S, HEADS[h], 'do_a', 'do_a', [], ' ', ' ', lines, tail='' if last else 'ZZ = "1"\n')
    S.check(f.FuncBodyRaw == '\n' + '\n'.join(dedent(lines + [''])), 'function body')
    S.cover('braces')
    return [f.FuncBodyRaw, f.FuncBody]


def units(tier):
    q = tier == 'quick'
    out = []
    for h in range(len(HEADS)):
        out += [('name', [h, n, 1, 1]) for n in range(0, 3 if q else 4)]
        out += [('name', [h, 0, a, b]) for a in (0, 1, 2) for b in (0, 1, 2)]
        out += [('override', [h, n, m]) for n in (1, 2) for m in ('append', 'prepend', 'class-native', 'remove')]
        out += [('special', [h, n, d, k]) for n in ((1, 2) if q else (1, 2, 3)) for d, k in ((':', 0), (':', 1), (':', 2), (':', 3), ('_', 3), ('', 0))]
        out += [('anonymous', [h, w]) for w in (0, 1)]
    for last in (False, True):
        out += [('braces', [h, k, n, last]) for h in (0, 1) for k, n in (((1, 2), (1, 4), (2, 2), (2, 3)) if q else ((1, 2), (1, 6), (2, 3), (3, 2), (4, 1)))]
        for nested in (0, 1, 2):
            out += [('body', [1, n, nested, last]) for n in range(0, 4 if q else 5)]
            out += [('body', [2, n, nested, last]) for n in ((1,) if q else (1, 2))]
            out += [('body', [3, 1, nested, last])]
    return out
