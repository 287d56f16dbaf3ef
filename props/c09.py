"""C09: expanded variables follow the semantics of the bitbake operators"""
from props.common import *

COVERS = ['weak', 'append', 'remove', 'override', 'include', 'filter', 'text', 'nolink', 'blanks']
BOUNDS = {
    'quick': 'sequences of up to 3 assignments to a variable with any of 11 operators (8 operators, append, prepend, remove), values of one arbitrary word (of 3 letters), of 2 assignments with values of none, one or two words and blanks before or after, of 2 assignments with values of up to 3 arbitrary characters including blanks; up to 2 arbitrary blanks before and after the operators; a machine override; both override syntaxes; the assignments spread over a recipe, its include and its bbappend, or of one of these files alone',
    'thorough': 'sequences of up to 5 assignments, and of 4 assignments with values of up to 2 arbitrary words',
}
ASSUMPTIONS = ['values have no references (see C11) and no inline code (see C06, C07)', 'the words of a value are compared, not the blanks between them']

OPS = ['=', ':=', '?=', '??=', '+=', '=+', '.=', '=.', 'append', 'prepend', 'remove']
W = 'abc'


def ref(prog):
    """reference evaluation of a list of (operator, value)"""
    val = None
    weak = None
    for op, v in prog:
        if op in ('=', ':='):
            val = v
        elif op == '?=':
            val = v if val is None else val
        elif op == '??=':
            weak = v
        elif op == '+=':
            val = (val or '') + ' ' + v
        elif op == '=+':
            val = v + ' ' + (val or '')
        elif op == '.=':
            val = (val or '') + v
        elif op == '=.':
            val = v + (val or '')
    if val is None and weak is not None:
        val = weak
    for op, v in prog:
        if op == 'append':
            val = (val or '') + v
        elif op == 'prepend':
            val = v + (val or '')
    for op, v in prog:
        if op == 'remove':
            drop = v.split()
            val = ' '.join([x for x in (val or '').split() if x not in drop])
    return (val or '').split()


def line(name, op, v, d=':'):
    if op in ('append', 'prepend', 'remove'):
        return name + d + op + ' = "' + v + '"\n'
    return name + ' ' + op + ' "' + v + '"\n'


def val(S, i, shapes):
    sh = S.choice('s%d' % i, shapes) if len(shapes) > 1 else shapes[0]
    out = ''
    for j, c in enumerate(sh):
        out = out + (S.str('v%d.%d' % (i, j), 1, W) if c == 'x' else c)
    return out


def words(S, first, k, shapes):
    prog = []
    text = ''
    for i in range(k):
        op = first if i == 0 else S.choice('op%d' % i, OPS)
        v = val(S, i, shapes)
        prog.append((op, v))
        text = text + line('A', op, v)
    return run(S, text, prog)


def empty(S, first, k):
    """the first value is empty"""
    prog = [(first, '')]
    text = line('A', first, '')
    for i in range(1, k):
        op = S.choice('op%d' % i, OPS)
        v = S.str('v%d' % i, 1, W)
        prog.append((op, v))
        text = text + line('A', op, v)
    S.cover('empty')
    return run(S, text, prog)


def run(S, text, prog):
    lean(S)
    S.write('a_1.0.bb', text)
    p = S.path('a_1.0.bb')
    st = stash(S)
    st.AddFile(p)
    for op, _ in prog:
        S.cover({'??=': 'weak', 'append': 'append', 'remove': 'remove'}.get(op, 'op'))
    r = st.ExpandVar(filename=p)['A']
    S.check(r == ref(prog), 'value is the one the operators compute')
    return r


def text(S, first, second, n, m):
    """arbitrary text including blanks as values"""
    a, b = S.str('a', n, 'ab \t'), S.str('b', m, 'ab \t')
    S.cover('text')
    return run(S, line('A', first, a) + line('A', second, b), [(first, a), (second, b)])


def blanks(S, first, second, n, alpha):
    """blanks around the operators have no meaning"""
    prog = []
    text = ''
    for i, op in enumerate((first, second)):
        v = S.str('v%d' % i, 1, W)
        x, y = S.str('x%d' % i, n, alpha), S.str('y%d' % i, n, alpha)
        t = line('A', op, v)
        t = t.replace(' = ', x + '=' + y) if op in OPS[8:] else 'A' + x + op + y + '"' + v + '"\n'
        prog.append((op, v))
        text = text + t
    S.cover('blanks')
    return run(S, text, prog)


def override(S, first, k, d):
    """an override is a variable of its own"""
    lean(S)
    progs = {'A': [], 'A' + d + 'mach': []}
    text = ''
    for i in range(k):
        op = first if i == 0 else S.choice('op%d' % i, OPS)
        o = S.bool('o%d' % i)
        v = S.str('v%d' % i, 1, W)
        nm = ('A' + d + 'mach') if o else 'A'
        progs[nm].append((op, v))
        if o and op in ('append', 'prepend', 'remove'):
            # the modifier comes before or after the override
            text = text + ('A' + d + op + d + 'mach = "' + v + '"\n' if S.bool('m%d' % i) else nm + d + op + ' = "' + v + '"\n')
        else:
            text = text + line(nm, op, v, d)
    S.write('a_1.0.bb', text)
    p = S.path('a_1.0.bb')
    st = stash(S, new_style_override_syntax=(d == ':'))
    st.AddFile(p)
    r = st.ExpandVar(filename=p)
    for nm in progs:
        if progs[nm]:
            S.check(r[nm] == ref(progs[nm]), 'value of each override')
        else:
            S.check(nm not in r, 'unset override')
    S.cover('override')
    return [r.get(x) for x in progs]


def spread(S, first, k, where):
    """assignments spread over several files are evaluated in order of inclusion"""
    lean(S)
    prog = []
    parts = ['', '', '']
    cur = 0
    for i in range(k):
        op = first if i == 0 else S.choice('op%d' % i, OPS)
        v = S.str('v%d' % i, 1, W)
        parts[where[i]] = parts[where[i]] + line('A', op, v)
        prog.append((op, v))
    S.write('a.inc', parts[1])
    S.write('a_1.0.bb', parts[0] + 'require a.inc\n')
    S.write('a_%.bbappend', parts[2])
    st = stash(S)
    p = S.path('a_1.0.bb')
    if S.bool('order'):
        st.AddFile(S.path('a_%.bbappend'))
        st.AddFile(p)
    else:
        st.AddFile(p)
        st.AddFile(S.path('a_%.bbappend'))
    st.Finalize()
    r = st.ExpandVar(filename=p)['A']
    S.check(r == ref(prog), 'value over several files')
    S.cover('include')
    return r


def filt(S, first, k):
    """restricting the expansion to one variable does not change its value, other variables are unaffected"""
    prog, other, text = [], [], ''
    for i in range(k):
        op = first if i == 0 else S.choice('op%d' % i, OPS)
        v = S.str('v%d' % i, 1, W)
        if S.bool('o%d' % i):
            other.append((op, v))
            text = text + line('B', op, v)
        else:
            prog.append((op, v))
            text = text + line('A', op, v)
    S.write('a_1.0.bb', text)
    p = S.path('a_1.0.bb')
    st = stash(S)
    st.AddFile(p)
    r = st.ExpandVar(filename=p, attribute='VarName', attributeValue='A')
    S.check('B' not in r, 'other variable is not part of the result')
    S.check(('A' in r) == (len(prog) > 0) and r.get('A', []) == ref(prog), 'value of the variable')
    a = st.ExpandVar(filename=p)
    S.check(a.get('A', []) == ref(prog) and a.get('B', []) == ref(other), 'values of all variables')
    n = st.ExpandVar(attribute='VarName', attributeValue='A')
    S.check(n.get('A', []) == ref(prog), 'value without naming a file')
    S.check(a['PN'] == ['a'] and a['PV'] == ['1.0'] and a['BPN'] == ['a'], 'base variables')
    S.cover('filter')
    return r.get('A')


def nolink(S, first, k, kind):
    """without linked files only the file's own assignments count"""
    lean(S)
    own, all_, o = [], [], []
    parts = ['', '']
    for i in range(k):
        op = first if i == 0 else S.choice('op%d' % i, OPS)
        v = S.str('v%d' % i, 1, W)
        w = S.bool('o%d' % i)
        o.append((w, op, v))
        parts[w] = parts[w] + line('A', op, v)
    other = 'a.inc' if kind == 'inc' else 'a_%.bbappend'
    S.write('a_1.0.bb', parts[0] + ('require a.inc\n' if kind == 'inc' else ''))
    S.write(other, parts[1] + 'X = "1"\n')
    p, r = S.path('a_1.0.bb'), S.path(other)
    st = stash(S)
    st.AddFile(p)
    if kind != 'inc':
        st.AddFile(r)
    st.Finalize()
    progs = [[(op, v) for w, op, v in o if w == x] for x in (False, True)]
    got = []
    for f, prog in ((p, progs[0]), (r, progs[1])):
        for kw in ({}, {'attribute': 'VarName', 'attributeValue': 'A'}):
            e = st.ExpandVar(filename=f, nolink=True, **kw)
            S.check(e.get('A', []) == ref(prog), 'value by the assignments of the file alone')
            S.check(('A' in e) == (len(prog) > 0), 'known if the file sets it')
            if f == p:
                S.check('X' not in e, 'no variable of another file')
            got.append(e.get('A'))
    e = st.ExpandVar(filename=p)
    S.check(e.get('A', []) == ref(progs[0] + progs[1]) and e['X'] == ['1'], 'value over all files')
    S.cover('nolink')
    return got


def units(tier):
    q = tier == 'quick'
    out = []
    P3 = [[0, 1, 2]] if q else [[0, 1, 2], [0, 0, 1], [0, 1, 1], [1, 2, 2], [0, 2, 2]]
    for o in OPS:
        out += [('words', [o, k, ['x', ' x', 'x ', 'x x', '']]) for k in (1, 2)]
        out += [('words', [o, 3, [' x'] if q else [' x', 'x x', '']])]
        if o in ('=', '.=', '??=', 'append'):
            out += [('empty', [o, 3])]
        out += [('text', [o, x, n, m]) for x in OPS for n, m in ((1, 2), (2, 1), (2, 2))]
        out += [('blanks', [o, x, 2, ' \t']) for x in (OPS if not q else [OPS[(OPS.index(o) + 1) % 11], '?='])]
        out += [('blanks', [o, '=', 2, ' \t'])] if not q else []
        out += [('override', [o, k, d]) for k in (1, 2) for d in (':', '_')]
        out += [('spread', [o, 3, w]) for w in P3]
        out += [('nolink', [o, k, x]) for k in ((2,) if q else (2, 3)) for x in ('inc', 'app')]
        out += [('filt', [o, k]) for k in ((1, 2) if q else (1, 2, 3))]
        if not q:
            out += [('words', [o, 4, [' x']]), ('words', [o, 5, [' x']])]
            out += [('words', [o, 3, ['x', ' x', 'x ', 'x x']]), ('words', [o, 4, ['x x']])]
            out += [('text', [o, x, n, m]) for x in OPS for n, m in ((3, 1), (1, 3), (3, 2), (2, 3))]
            out += [('override', [o, 3, d]) for d in (':', '_')]
    return out
