"""C11: term expansion substitutes every known reference and terminates"""
from props.common import *

COVERS = ['free', 'chain', 'cycle', 'spare', 'unknown', 'base', 'file', 'include', 'getvar', 'baseset', 'readfile', 'nofile']
BOUNDS = {
    'quick': 'terms of up to 7 arbitrary characters (of 7, including the ones of references) with up to 2 known variables; definition graphs of 3 variables, each defined in the recipe (by = or ?=) or in the base set with up to 2 references to any variable, '
             'and 2 arbitrary letters, including cycles; any set of spared variables; recipe file names with up to 2 arbitrary characters in name and version; terms reading a file of up to 2 arbitrary characters',
    'thorough': 'terms of up to 9 arbitrary characters, graphs of 4 variables, file names of up to 4 arbitrary characters in each part',
}
ASSUMPTIONS = ['every variable is assigned once, without overrides', 'references are not nested in other references', 'values have no inline code (see C06, C07)']


def scan(term):
    """parts of a term: (is reference, text)"""
    out = []
    pos = 0
    while pos < len(term):
        a = term.find('${', pos)
        b = term.find('}', a + 3) if a >= 0 else -1
        if a < 0 or b < 0:
            break
        out.append((False, term[pos:a]))
        out.append((True, term[a + 2:b]))
        pos = b + 1
    out.append((False, term[pos:]))
    return out


def ref(term, defs, spare, stack=()):
    out = ''
    for isref, t in scan(term):
        if not isref:
            out = out + t
        elif t in spare or t not in defs:
            out = out + '${' + t + '}'
        elif t in stack:
            pass
        else:
            out = out + ref(defs[t], defs, spare, stack + (t,))
    return out


def cyclic(name, defs, spare, stack=()):
    if name in stack:
        return True
    if name not in defs or name in spare:
        return False
    return any([cyclic(t, defs, spare, stack + (name,)) for r, t in scan(defs[name]) if r])


def free(S, n, both):
    """arbitrary text"""
    lean(S)
    S.write('a_1.0.bb', 'A = "xy"\n' + ('B = "${A}$"\n' if both else ''))
    p = S.path('a_1.0.bb')
    st = stash(S)
    st.AddFile(p)
    term = S.str('t', n, '${}AB x')
    for r, t in scan(term):
        S.assume(not r or '${' not in t)
    S.cover('free')
    got = st.ExpandTerm(p, term)
    S.check(got == ref(term, {'A': 'xy', 'B': '${A}$'} if both else {'A': 'xy'}, []), 'expanded text')
    return got


def inbase(S, name, value):
    S.mod('oelint_parser.constants').CONSTANTS.OverrideConstants({'sets': {'base': {name: value}}})


def graph(S, names, a0, k, inc, ops=('=', '?=')):
    """arbitrary definitions, in the recipe or in the base set of variables"""
    lean(S)
    refs = list(names) + ['U', '']
    defs = {}
    text = ''
    for i, nm in enumerate(names):
        r = [S.choice('%s.%d' % (nm, j), refs) if (i or j) else a0 for j in range(k)]
        v = ''.join([('${' + x + '}' if x else '') + ('=' if j else S.str('l' + nm, 1, 'ab')) for j, x in enumerate(r)])
        defs[nm] = v
        op = S.choice('op' + nm, list(ops))
        if op:
            text = text + nm + ' ' + op + ' "' + v + '"\n'
        else:
            inbase(S, nm, v)
            S.cover('baseset')
    if inc:
        S.write('a.inc', text)
        text = 'require a.inc\n'
        S.cover('include')
    S.write('a_1.0.bb', text)
    p = S.path('a_1.0.bb')
    st = stash(S)
    st.AddFile(p)
    st.Finalize()
    cyc = any([cyclic(nm, defs, []) for nm in names])
    S.cover('cycle' if cyc else 'chain')
    if 'U' in text:
        S.cover('unknown')
    obs = []
    for nm in names:
        got = st.ExpandTerm(p, '<${' + nm + '}>')
        obs.append(got)
        S.check(got[:1] == '<' and got[-1:] == '>', 'other text is kept')
        if not cyclic(nm, defs, []):
            S.check(got == '<' + ref('${' + nm + '}', defs, []) + '>', 'value of ' + nm)
    allt = '/'.join(['${' + nm + '}' for nm in names])
    got = st.ExpandTerm(p, allt)
    ev = st.ExpandVar(filename=p)
    if not cyc:
        S.check(got == ref(allt, defs, []), 'value of all')
        for nm in names:
            S.check(ev[nm] == ref('${' + nm + '}', defs, []).split(), 'expanded variable ' + nm)
    return obs + [got]


def spare(S, names, a0, based=False):
    """spared variables are kept, wherever they are referenced"""
    lean(S)
    refs = list(names) + ['U', '']
    defs = {}
    text = ''
    for i, nm in enumerate(names):
        r = S.choice(nm, refs) if i else a0
        defs[nm] = S.str('l' + nm, 1, 'ab') + ('${' + r + '}' if r else '')
        if based and S.bool('b' + nm):
            inbase(S, nm, defs[nm])
        else:
            text = text + nm + ' = "' + defs[nm] + '"\n'
    S.write('a_1.0.bb', text + 'ZZ = "1"\n')
    p = S.path('a_1.0.bb')
    st = stash(S)
    st.AddFile(p)
    sp = [nm for nm in list(names) + ['PN', 'BP', 'U'] if S.bool('s' + nm)]
    term = ' '.join(['${' + nm + '}' for nm in names]) + ' ${PN}'
    if sp:
        S.cover('spare')
    S.assume(not any([cyclic(nm, defs, sp) for nm in names]))
    got = st.ExpandTerm(p, term, spare=sp)
    defs['PN'] = 'a'
    S.check(got == ref(term, defs, sp), 'spared variables stay')
    return got


NAMES = ['PN', 'PV', 'BPN', 'FILE', 'THISDIR', 'BP', 'P', 'SOLIBS', 'PACKAGES', 'A', 'UNKNOWN']


def base(S, n, m, pre, post, ver, pos):
    """name, version, base name and location"""
    pn = S.str('n', n, 'ab-.1')
    pv = S.str('v', m, 'ab-.1+') if ver else '1.0'
    d = S.path('')
    fn = d.rstrip('/') + '/' + pre + pn + post + ('_' + pv if ver else '') + '.bb'
    S.assume(len(pn) > 0 and pn[0] in 'ab' and pn[-1] not in '.')
    S.assume(not pn.startswith('nativesdk-') and not pn.endswith('-native') and not pn.endswith('-cross'))
    st = stash(S)
    nm = S.choice('ref', NAMES)
    bpn = pn
    full = pre + pn + post
    defs = {'PN': full, 'PV': pv, 'BPN': bpn, 'FILE': fn, 'THISDIR': d.rstrip('/'), 'BP': bpn + '-' + pv, 'P': full + '-' + pv, 'SOLIBS': '.so.*'}
    lit = S.str('l', 1, 'ab$ {')
    t = '${' + nm + '}' + lit
    t = (lit + t) if pos else t
    S.assume('${${' not in t and not (pos and lit in ('$', '{')))
    S.cover('base')
    got = st.ExpandTerm(fn, t)
    if nm in ('FILE', 'THISDIR'):
        S.cover('file')
    if nm == 'PACKAGES':
        e = ' '.join([full + x for x in ('-src', '-dbg', '-staticdev', '-dev', '-doc', '-locale')]) + '  ' + full
    else:
        e = defs.get(nm, '${' + nm + '}')
    S.check(got == (lit if pos else '') + e + lit, 'derived from the name of the file')
    return got


def getvar(S, quote, k):
    """references by d.getVar"""
    lean(S)
    S.write('a_1.0.bb', 'A = "x${B}"\nB = "y"\n')
    p = S.path('a_1.0.bb')
    st = stash(S)
    st.AddFile(p)
    n = S.choice('n', ['A', 'B', 'U', 'PN'])
    arg = S.choice('arg', ['', ', True', ',False', ' , True '])
    lit = S.str('l', k, 'ab() ')
    call = 'd.getVar(' + quote + n + quote + arg + ')'
    t = lit + call
    got = st.ExpandTerm(p, t)
    S.cover('getvar')
    S.check(got == lit + {'A': 'xy', 'B': 'y', 'PN': 'a'}.get(n, call), 'value of the variable')
    return got


def readfile(S, n, path, what):
    """a term reading a file is the content of this file"""
    lean(S)
    c = S.str('c', n, 'ab \n$"')
    v = S.str('v', 1, 'de')
    S.write('l/a_1.0.bb', 'V = "' + v + '"\nW = "1"\n')
    S.write('l/d', c, what == 'file' and S.bool('hd'))
    S.write('l/e', 'x' + c, what == 'file' and S.bool('he'))
    S.write('l/1.0', 'y' + c)
    S.mkdir('l/dir')
    p = S.path('l/a_1.0.bb')
    st = stash(S)
    st.AddFile(p)
    f = {'var': '${THISDIR}/${V}', 'plain': S.path('l/d'), 'version': '${THISDIR}/${PV}', 'dir': S.path('l/dir'), 'none': 'nothing/here'}[path]
    q = S.choice('q', ["'", '"'])
    got = st.ExpandTerm(p, S.choice('lead', ['${@', '${@ ', '${@x + ']) + 'oe.utils.read_file(' + q + f + q + ')}')
    e = {'var': [c if v == 'd' else 'x' + c, S.bool('hd') if v == 'd' else S.bool('he')], 'plain': [c, S.bool('hd')], 'version': ['y' + c, True], 'dir': ['', True], 'none': ['', True]}[path]
    if path in ('var', 'plain') and what != 'file':
        e[1] = False
    S.cover('readfile' if e[1] else 'nofile')
    S.check(got == (e[0] if e[1] else ''), 'content of the file')
    return got


def units(tier):
    q = tier == 'quick'
    out = [('free', [n, b]) for n in range(1, 8 if q else 10) for b in (False, True)]
    N = ['A', 'B', 'C']
    for a0 in N + ['U', '']:
        out += [('graph', [N, a0, 1, i]) for i in (False, True)]
        out += [('graph', [N[:2], a0, 2, False])]
        out += [('graph', [N[:2], a0, 1, False, ['=', '']]), ('graph', [N, a0, 1, False, ['']]), ('spare', [N, a0]), ('spare', [N[:2], a0, True])]
        if not q:
            out += [('graph', [N, a0, 1, i, ['=', '']]) for i in (False, True)] + [('spare', [N, a0, True])]
            out += [('graph', [N + ['D'], a0, 1, False]), ('graph', [N, a0, 2, False]), ('spare', [N + ['D'], a0])]
    for n, m in (((1, 1), (2, 1), (1, 2)) if q else ((1, 1), (2, 2), (3, 2), (2, 3), (4, 4))):
        for pre, post in (('', ''), ('nativesdk-', ''), ('', '-native'), ('', '-cross')):
            out += [('base', [n, m, pre, post, v, pos]) for v in (False, True) for pos in (False, True)]
    out += [('getvar', [qu, k]) for qu in ('"', "'") for k in ((1, 2) if q else (1, 2, 3))]
    out += [('readfile', [n, x, w]) for x in ('var', 'plain', 'version', 'dir', 'none') for n in ((0, 2) if q else (0, 2, 4)) for w in ('file', '')]
    return out
