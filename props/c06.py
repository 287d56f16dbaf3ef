"""C06: calls of known inline functions evaluate to the chosen branch"""
from props.common import *

COVERS = ['positive', 'negative', 'default', 'getvar', 'two', 'statement', 'reference']
BOUNDS = {
    'quick': '11 helper functions and reading a variable; both evaluation modes; arguments of up to 3 arbitrary characters each with either quote or unquoted references; up to 2 arbitrary blanks around arguments; '
             'up to 2 arbitrary characters before and after the call; up to 2 calls and 1 unknown call in a value',
    'thorough': 'the same with arguments of up to 5 and surroundings of up to 3 arbitrary characters',
}
ASSUMPTIONS = ['arguments are literals without commas, quotes, parentheses, backslashes and inline code; the code consists of the call only']

# arguments: V name, T true, F false, X other, d; optional ones in upper case options
HELPERS = {
    'bb.utils.contains': ('XXTFd', 'T', 'F'),
    'bb.utils.contains_any': ('XXTFd', 'T', 'F'),
    'bb.utils.filter': ('TXd', 'T', ''),
    'oe.utils.conditional': ('XXTFd', 'T', 'F'),
    'oe.utils.ifelse': ('cTF', 'T', 'F'),
    'oe.utils.any_distro_features': ('dXTF', 'T', 'F'),
    'oe.utils.all_distro_features': ('dXTF', 'T', 'F'),
    'oe.utils.vartrue': ('XTFd', 'T', 'F'),
    'oe.utils.less_or_equal': ('XXTFd', 'T', 'F'),
    'oe.utils.version_less_or_equal': ('XXTFd', 'T', 'F'),
    'oe.utils.both_contain': ('XXTd', 'T', ''),
}
ARG = minus(LINE, '"\'\\(),{}$')
OUT = minus(LINE, '"\\{}$')


def call(S, h, p, n, q, b, args=None):
    """text of a call, true and false argument"""
    shape, t, f = HELPERS[h]
    shape = args or shape
    out = ''
    val = {'T': '', 'F': ''}
    for i, a in enumerate(shape):
        out = out + (',' if i else '') + S.str('%sb%d' % (p, i), b if i or n.__class__ is int and n > 1 else 0, ' \t')
        if a == 'd':
            out = out + 'd'
            continue
        if a == 'c':
            out = out + "d.getVar('X') == 'y'"
        elif a == 'X':
            out = out + q + S.str('%sx%d' % (p, i), 1, ARG) + q
        else:
            val[a] = S.str(p + a, n if n.__class__ is int else n['TF'.index(a)], ARG)
            out = out + q + val[a] + q + S.str('%sc%d' % (p, i), b, ' \t')
    return '${@' + h + '(' + out + ')}', val['T'], (val['F'] if f else '')


def parse(S, neg, text):
    S.write('a_1.0.bb', text)
    st = stash(S, negative_inline=neg)
    return st, st.AddFile(S.path('a_1.0.bb'))


def single(S, h, neg, n, q, b, m):
    c, t, f = call(S, h, '', n, q, b)
    exp = f if neg else t
    pre, post = S.str('pre', m, OUT), S.str('post', m, OUT)
    text = 'A = "' + pre + c + post + '"\n'
    st, items = parse(S, neg, text)
    S.check(len(items) == 1 and items[0].CLASSIFIER == 'Variable', 'one variable')
    v = items[0]
    S.check(v.RealRaw == text, 'unprocessed text')
    S.check(v.Raw == 'A = "' + pre + exp + post + '"\n', 'processed text')
    S.check(v.VarValue == '"' + pre + exp + post + '"', 'value')
    S.check(v.InlineBlocks == [(c, exp)], 'list of inline blocks')
    S.cover('negative' if neg else 'positive')
    return [v.VarValue, v.InlineBlocks]


def default(S, h, neg, k, n, q):
    """optional arguments of the distro feature functions"""
    c, t, f = call(S, h, '', n, q, 1, 'dX' + 'TF'[:k])
    exp = f if neg else (t if k else '1')
    st, items = parse(S, neg, 'A = "' + c + '"\n')
    S.check(items[0].VarValue == '"' + exp + '"', 'value')
    S.cover('default')
    return items[0].VarValue


def getvar(S, n, q, b, extra, m):
    nm = S.str('n0', 1, UPPER + LOWER) + S.str('n', n, ALNUM + '_-:')
    c = '${@' + S.str('w', b, ' \t') + 'd.getVar(' + S.str('w1', b, ' \t') + q + nm + q + extra + S.str('w2', b, ' \t') + ')}'
    pre, post = S.str('pre', m, OUT), S.str('post', m, OUT)
    st, items = parse(S, False, 'A = "' + pre + c + post + '"\n')
    S.check(items[0].VarValue == '"' + pre + '${' + nm + '}' + post + '"', 'reference to the variable')
    S.cover('getvar')
    return items[0].VarValue


def two(S, h, g, neg, unknown, n):
    """several calls in one value do not influence each other"""
    c1, t1, f1 = call(S, h, 'p', n, "'", 0)
    c2, t2, f2 = call(S, g, 'q', n, "'", 1)
    u = "${@some.func('" + S.str('u', 1, ARG) + "')}" if unknown else ''
    sep = S.str('sep', 1, OUT)
    parts = [c1, u, c2] if unknown != 2 else [u, c1, c2]
    text = 'A = "' + parts[0] + sep + parts[1] + sep + parts[2] + '"\nB = "x"\n'
    st, items = parse(S, neg, text)
    S.check(len(items) == 2, 'two items')
    e = {0: f1 if neg else t1, 2: f2 if neg else t2}
    exp = [e[0], u, e[2]] if unknown != 2 else [u, e[0], e[2]]
    val = exp[0] + sep + exp[1] + sep + exp[2]
    S.check([x[0] for x in items[0].InlineBlocks] == [x for x in parts if len(x)], 'all blocks in order')
    S.check(st.ExpandTerm(S.path('a_1.0.bb'), items[0].VarValueStripped, objref=items[0]) == val, 'value')
    S.cover('two')
    return [items[0].VarValue, items[0].InlineBlocks]


def statement(S, kind, h, neg, n):
    """calls are evaluated in every kind of statement"""
    c, t, f = call(S, h, '', n, "'", 1)
    exp = f if neg else t
    for x in (t, f):
        S.assume(len(x) == 0 or (ok(x)))
    if kind == 'inherit':
        st, items = parse(S, neg, 'inherit xx ' + c + '\n')
        S.check(items[0].CLASSIFIER == 'Inherit' and items[0].get_items() == ['xx'] + ([exp] if len(exp) else []), 'classes')
    elif kind == 'include':
        st, items = parse(S, neg, 'include x' + c + '.inc\n')
        S.check(items[0].CLASSIFIER == 'Include' and items[0].IncName == 'x' + exp + '.inc', 'file')
    elif kind == 'flag':
        st, items = parse(S, neg, 'A[b] = "' + c + '"\n')
        S.check(items[0].CLASSIFIER == 'FlagAssignment' and items[0].ValueStripped == exp, 'value')
    elif kind == 'name':
        st, items = parse(S, neg, 'A_X' + c + ' = "v"\n')
        S.check(items[0].CLASSIFIER == 'Variable' and items[0].VarNameComplete == 'A_X' + exp, 'name')
    elif kind == 'addtask':
        st, items = parse(S, neg, 'addtask a after do_x ' + c + '\n')
        S.check(items[0].CLASSIFIER == 'TaskAdd' and items[0].After == ['do_x'] + ([exp] if len(exp) else []), 'tasks')
    S.cover('statement')
    return items[0].CLASSIFIER


def ok(x):
    for ch in x:
        if ch not in UPPER + DIGIT:
            return False
    return True


def reference(S, h, neg, n):
    """references in the chosen branch are expanded"""
    b, c = S.str('b', n, UPPER), S.str('c', n, UPPER)
    tv, fv = S.str('tv', n, ALNUM), S.str('fv', n, ALNUM)
    S.assume(b != c)
    shape, t, f = HELPERS[h]
    out = ''
    for i, a in enumerate(shape):
        out = out + (', ' if i else '') + {'d': 'd', 'c': 'x', 'X': "'x'", 'T': "'${X" + b + "}'", 'F': "'${X" + c + "}'"}[a]
    text = 'X' + b + ' = "' + tv + '"\nX' + c + ' = "' + fv + '"\nA = "${@' + h + '(' + out + ')}"\n'
    st, items = parse(S, neg, text)
    r = st.ExpandVar(S.path('a_1.0.bb'))['A']
    exp = (fv if f else '') if neg else tv
    S.check(r == ([exp] if len(exp) else []), 'expanded value')
    S.cover('reference')
    return r


def units(tier):
    q = tier == 'quick'
    N = 4 if q else 6
    out = []
    for h in HELPERS:
        for neg in (False, True):
            for n in range(0, N):
                out += [('single', [h, neg, n, "'", 0, 0]), ('single', [h, neg, n, '"', 1, 1])]
            out += [('single', [h, neg, [x, y], qu, 0, 0]) for x in range(0, N) for y in range(0, N) if x != y for qu in ("'", '"')]
            out += [('single', [h, neg, 1, "'", b, 0]) for b in (1, 2)]
            out += [('single', [h, neg, 1, "'", 1, m]) for m in ((1, 2) if q else (1, 2, 3))]
            out += [('reference', [h, neg, n]) for n in (1, 2)]
            for k in ('inherit', 'include', 'flag', 'name', 'addtask'):
                out += [('statement', [k, h, neg, n]) for n in (1, 2)]
            for g in HELPERS if not q else ['bb.utils.contains', 'oe.utils.ifelse', 'oe.utils.any_distro_features']:
                out += [('two', [h, g, neg, u, 1]) for u in (0, 1, 2)]
    for h in ('oe.utils.any_distro_features', 'oe.utils.all_distro_features'):
        out += [('default', [h, neg, k, n, qu]) for neg in (False, True) for k in (0, 1, 2) for n in range(0, N) for qu in ('"', "'")]
    for e in ('', ', True', ', False', ',True', ' , expand=False'):
        for qu in ('"', "'"):
            out += [('getvar', [n, qu, b, e, m]) for n in range(0, N - 1) for b in (0, 1) for m in (0, 1)]
    return out
