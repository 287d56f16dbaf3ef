"""C07: inline code that cannot be evaluated is never altered and always recoverable"""
from props.common import *

COVERS = ['value', 'nested', 'multi', 'function', 'multiline', 'include', 'operators', 'reference', 'mixed']
BOUNDS = {
    'quick': 'up to 3 blocks per value, each with up to 3 arbitrary characters (alone) or 1 (several blocks), up to 5 levels of braces in the code, alternating with known functions, up to 2 arbitrary characters around one block, 1 around two, in values, functions, '
             'continued values, include, inherit and flag statements, combined by 9 operators',
    'thorough': 'the same with up to 6 arbitrary characters alone and 2 each with several blocks',
}
ASSUMPTIONS = ['braces inside the code are balanced, the code has no backslash, contains no known function and no nested inline code']

CODE = minus(LINE, '{}\\"')
OUT = minus(LINE, '"\\{}$')


def block(S, name, n, nest):
    s = S.str(name, n, CODE)
    if nest == 1:
        return '${@{' + s + '}[x]}'
    if nest == 2:
        return '${@a("${' + s + '}")}'
    if nest == 3:
        return '${@f({' + s + '}, {})}'
    if nest == 4:
        return '${@{{{{{' + s + '}}}}}}'
    if nest == 5:
        return '${@a({1: {2: {3: {4: {' + s + '}}}}}, {})}'
    return '${@' + s + '}'


def ph(S):
    return S.mod('oelint_parser.parser').INLINE_BLOCK


def parse(S, text, **kw):
    S.write('a_1.0.bb', text)
    st = stash(S, **kw)
    return st, st.AddFile(S.path('a_1.0.bb'))


def value(S, k, n, nest, m, neg):
    PH = ph(S)
    bl, val, hid = [], S.str('o', m, OUT), S.str('o', m, OUT)
    for i in range(k):
        b = block(S, 'b%d' % i, n, nest)
        o = S.str('o%d' % i, m, OUT)
        bl.append(b)
        val = val + b + o
        hid = hid + PH + o
    text = 'A = "' + val + '"\n'
    st, items = parse(S, text + 'B = "1"\n', negative_inline=neg)
    S.check(len(items) == 2 and items[1].CLASSIFIER == 'Variable', 'following statement')
    v = items[0]
    S.check(v.CLASSIFIER == 'Variable', 'variable')
    S.check(v.RealRaw == text, 'unprocessed text is kept')
    S.check(v.Raw == 'A = "' + hid + '"\n', 'processed text has placeholders only')
    S.check(v.VarValue == '"' + hid + '"', 'value has placeholders only')
    S.check(v.InlineBlocks == [(b, PH) for b in bl], 'all blocks in order')
    p = S.path('a_1.0.bb')
    S.check(st.ExpandTerm(p, v.VarValueStripped, objref=v) == val, 'expanding the term restores the code')
    S.check(st.ExpandVar(p)['A'] == val.split(), 'expanding the variable restores the code')
    S.cover('value')
    if k > 1:
        S.cover('multi')
    if nest:
        S.cover('nested')
    return [v.VarValue, v.InlineBlocks, st.ExpandVar(p)['A']]


def mixed(S, k, n, neg):
    """blocks that can be evaluated between others"""
    PH = ph(S)
    val = raw = hid = exp = ''
    bl = []
    for i in range(k):
        o = S.str('o%d' % i, 1, OUT)
        if S.bool('k%d' % i):
            b, h = "${@bb.utils.contains('F', 'x', 'T%d', 'E%d', d)}" % (i, i), ('E' if neg else 'T') + str(i)
            e = h
        else:
            b = block(S, 'b%d' % i, n, 0)
            h, e = PH, b
        bl.append((b, h))
        val, hid, exp = val + b + o, hid + h + o, exp + e + o
    text = 'A = "' + val + '"\n'
    st, items = parse(S, text + 'B = "1"\n', negative_inline=neg)
    S.check(len(items) == 2, 'following statement')
    v = items[0]
    S.check(v.RealRaw == text, 'unprocessed text is kept')
    S.check(v.Raw == 'A = "' + hid + '"\n' and v.VarValueStripped == hid, 'processed text')
    S.check(v.InlineBlocks == bl, 'all blocks in order')
    p = S.path('a_1.0.bb')
    S.check(st.ExpandTerm(p, v.VarValueStripped, objref=v) == exp or PH not in hid, 'expanding the term restores the code')
    S.check(st.ExpandVar(p)['A'] == exp.split(), 'expanding the variable restores the code')
    S.cover('mixed')
    return [v.InlineBlocks, st.ExpandVar(p)['A']]


OPS = ['A = ', 'A := ', 'A ?= ', 'A ??= ', 'A += ', 'A =+ ', 'A .= ', 'A =. ', 'A:append = ', 'A:prepend = ']


def operators(S, op, n):
    """whatever the operator, the code ends up at its place"""
    b1, b2 = block(S, 'b1', n, 0), block(S, 'b2', n, 1)
    o = S.str('o', 1, OUT)
    first = '' if '?' in op else 'A = "x' + b1 + '"\n'
    st, items = parse(S, first + op + '"' + b2 + o + '"\n')
    v2 = b2 + o
    v1 = 'x' + b1
    exp = {'A = ': v2, 'A := ': v2, 'A ?= ': v2, 'A ??= ': v2, 'A += ': v1 + ' ' + v2, 'A =+ ': v2 + ' ' + v1, 'A .= ': v1 + v2, 'A =. ': v2 + v1,
           'A:append = ': v1 + v2, 'A:prepend = ': v2 + v1}[op]
    r = st.ExpandVar(S.path('a_1.0.bb'))['A']
    S.check(r == exp.split(), 'expanded value')
    S.cover('operators')
    return r


def remove(S, n):
    """code can be removed"""
    b = block(S, 'b', n, 0)
    S.assume(len(b.split()) == 1)
    st, items = parse(S, 'A = "x ' + b + ' y"\nA:remove = "' + b + '"\n')
    r = st.ExpandVar(S.path('a_1.0.bb'))['A']
    S.check(r == ['x', 'y'], 'expanded value')
    return r


def reference(S, n):
    b = block(S, 'b', n, 0)
    o = S.str('o', 1, ALNUM)
    st, items = parse(S, 'A = "${B}' + o + '${B}"\nB = "' + b + '"\n')
    r = st.ExpandVar(S.path('a_1.0.bb'))['A']
    S.check(r == (b + o + b).split(), 'expanded value')
    S.cover('reference')
    return r


def multiline(S, n, k):
    bl = [block(S, 'b%d' % i, n, 0) for i in range(k)]
    text = 'A = "' + ' \\\n '.join(bl) + '"\n'
    st, items = parse(S, text + 'B = "1"\n')
    S.check(len(items) == 2, 'one item')
    S.check(items[0].RealRaw == text, 'unprocessed text')
    S.check(items[0].InlineBlocks == [(b, ph(S)) for b in bl], 'all blocks in order')
    S.check(items[0].get_items() == [ph(S)] * k, 'one item for each block')
    S.cover('multiline')
    return items[0].get_items()


def function(S, n, k):
    bl = [block(S, 'b%d' % i, n, i) for i in range(k)]
    text = 'do_x() {\n' + ''.join(['    a ' + b + '\n' for b in bl]) + '}\n'
    st, items = parse(S, text + 'B = "1"\n')
    S.check(len(items) == 2, 'one item')
    S.check(items[0].CLASSIFIER == 'Function' and items[0].RealRaw == text, 'unprocessed text')
    S.check(items[0].InlineBlocks == [(b, ph(S)) for b in bl], 'all blocks in order')
    S.check(items[0].get_items() == [''] + ['a ' + ph(S)] * k + [''], 'body')
    S.cover('function')
    return items[0].get_items()


def statement(S, kind, n):
    b = block(S, 'b', n, 0)
    PH = ph(S)
    if kind in ('include', 'require'):
        text = kind + ' x' + b + '.inc\n'
        st, items = parse(S, text)
        S.check(items[0].CLASSIFIER == 'Include' and items[0].IncName == 'x' + PH + '.inc' and items[0].FileIncluded == '', 'include')
        S.cover('include')
    elif kind == 'inherit':
        text = 'inherit ' + b + ' y\n'
        st, items = parse(S, text)
        S.check(items[0].CLASSIFIER == 'Inherit' and items[0].get_items() == [PH, 'y'], 'inherit')
    elif kind == 'flag':
        text = 'A[x] = "' + b + '"\n'
        st, items = parse(S, text)
        S.check(items[0].CLASSIFIER == 'FlagAssignment' and items[0].ValueStripped == PH, 'flag')
    elif kind == 'export':
        text = 'export A = "' + b + '"\n'
        st, items = parse(S, text)
        S.check(items[0].CLASSIFIER == 'Export' and items[0].Value == PH, 'export')
    else:
        text = '# ' + b + '\n'
        st, items = parse(S, text)
        S.check(items[0].CLASSIFIER == 'Comment', 'comment')
    S.check(len(items) == 1 and items[0].RealRaw == text and items[0].InlineBlocks == [(b, PH)], 'block and unprocessed text')
    return items[0].get_items()


def units(tier):
    q = tier == 'quick'
    N = 4 if q else 7
    M = (1,) if q else (1, 2)
    out = []
    for neg in (False, True):
        out += [('mixed', [k, n, neg]) for k in (2, 3) for n in (M if k == 2 else (0,) + M[1:])]
        for nest in (4, 5):
            out += [('value', [1, n, nest, 1, neg]) for n in M] + [('value', [2, n, nest, 0, neg]) for n in M]
        for nest in (0, 1, 2, 3):
            out += [('value', [1, n, nest, m, neg]) for n in range(N) for m in (0, 1, 2)]
            out += [('value', [k, n, nest, m, neg]) for k in (2, 3) for n in M for m in (0, 1) if not q or (k + m < 4 and not (k == 3 and neg))]
    for n in range(N):
        out += [('operators', [o, n]) for o in OPS if not q or n < 3]
        out += [('remove', [n]), ('reference', [n])]
        out += [('statement', [k, n]) for k in ('include', 'require', 'inherit', 'flag', 'export', 'comment')]
    for n in (0,) + M:
        out += [('multiline', [n, k]) for k in (2, 3)]
        out += [('function', [n, k]) for k in (1, 2, 3)]
    return out
