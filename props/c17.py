"""C17: source URIs are split into scheme, location and options"""
from props.common import *

COVERS = ['options', 'mirror', 'invalid', 'query', 'slash', 'named', 'free', 'inner', 'twice']
BOUNDS = {
    'quick': 'URIs of an arbitrary scheme (up to 3 characters) or any of 8 known ones, a location of up to 5 arbitrary characters (of 12) and up to 2 options with up to 2 arbitrary characters in name and 3 in value (of 11); all known mirrors, also in the value of an option; '
             'arbitrary text of up to 6 characters (of 10)',
    'thorough': 'locations of up to 7 and options of up to 4 arbitrary characters, arbitrary text of up to 8 characters',
}
ASSUMPTIONS = ['the path does not start with more than one slash', 'locations do not end in an empty query or fragment', 'no hosts in brackets (IPv6)']

SCHEMES = ['git', 'http', 'https', 'file', 'ftp', 'gitsm', 'npmsw', 'svn']


def ref_options(parts):
    out = {}
    for x in parts:
        i = x.find('=')
        if i >= 0:
            out[x[:i]] = x[i + 1:]
    return out


def location(S, scheme, n, opts, m):
    s = scheme or S.str('s', m, 'abz+-.9')
    S.assume(s[0] in 'abghfnsz')
    loc = S.str('l', n, 'ab/.:@?#-_=%') if n else ''
    i = loc.find('/')
    S.assume(i < 0 or '//' not in loc[i:i + 2])
    S.assume(loc[-1:] not in ('?', '#') and '?#' not in loc)
    if '?' in loc or '#' in loc:
        S.cover('query')
    if '/' in loc:
        S.cover('slash')
    text = s + '://' + loc
    o = []
    for j, (a, b) in enumerate(opts):
        k = S.str('k%d' % j, a, 'abn/')
        v = S.str('v%d' % j, b, 'ab=/?#:.@$[') if b else ''
        o.append((k, v))
        text = text + ';' + k + '=' + v
        S.cover('options')
    st = stash(S)
    r = st.GetScrComponents(text)
    S.check(r['scheme'] == s, 'scheme')
    S.check(r['src'] == loc, 'location without options')
    exp = {}
    for k, v in o:
        exp[k] = v
    S.check(sorted(r['options'].items()) == sorted(exp.items()), 'options with their complete value')
    return [r['scheme'], r['src'], sorted(r['options'].items())]


def free(S, n, pre):
    """arbitrary text never raises"""
    t = pre + S.str('t', n, 'ab:/;=[]?$')
    S.assume('[' not in t.split(';')[0] or ']' not in t.split(';')[0])
    st = stash(S)
    r = st.GetScrComponents(t)
    S.cover('free')
    S.check(sorted(r.keys()) == ['options', 'scheme', 'src'], 'all components')
    exp = ref_options(t.split(';')[1:])
    if r['options'] == {} and exp:
        S.cover('invalid')
        S.check(r['scheme'] == '' and r['src'] == '' and ('[' in t or ']' in t), 'empty components for text that is no URI')
    else:
        S.check(sorted(r['options'].items()) == sorted(exp.items()), 'options')
    return [r['scheme'], r['src'], sorted(r['options'].items())]


def mirror(S, i, n):
    """known mirrors are replaced"""
    c = S.mod('oelint_parser.constants').CONSTANTS
    names = sorted(c.MirrorsKnown)
    k = names[i]
    v = c.MirrorsKnown[k]
    rest = S.str('r', n, 'ab/;=') if n else ''
    S.assume(not rest.startswith(';') or '=' in rest)
    S.assume(not v.endswith('/') or not rest.startswith('/'))
    st = stash(S)
    a = st.GetScrComponents(k + rest)
    b = st.GetScrComponents(v + rest)
    S.cover('mirror')
    S.check(a['scheme'] == b['scheme'] == v.split('://')[0], 'scheme of the mirror')
    S.check(a['src'] == b['src'] and a['src'].startswith(v.split('://')[1].split(';')[0].split('/')[0]), 'location of the mirror')
    S.check(sorted(a['options'].items()) == sorted(b['options'].items()), 'options')
    return [a['src'], sorted(a['options'].items())]


def inner(S, i, n, m):
    """known mirrors are replaced wherever they are"""
    c = S.mod('oelint_parser.constants').CONSTANTS
    k = sorted(c.MirrorsKnown)[i]
    v = c.MirrorsKnown[k]
    o = S.str('o', 1, 'ab')
    pre = S.str('p', n, 'ab=') if n else ''
    rest = S.str('r', m, 'ab/=') if m else ''
    S.assume(not v.endswith('/') or not rest.startswith('/'))
    r = stash(S).GetScrComponents('npm://x;' + o + '=' + pre + k + rest)
    S.cover('inner')
    S.check(r['scheme'] == 'npm' and r['src'] == 'x', 'location')
    if ';' not in v:
        S.check(r['options'] == {o: pre + v + rest}, 'mirror in the value of an option')
    return sorted(r['options'].items())


def twice(S, i, n):
    """the same mirror in the location and in an option"""
    c = S.mod('oelint_parser.constants').CONSTANTS
    k = sorted(c.MirrorsKnown)[i]
    v = c.MirrorsKnown[k]
    S.assume(';' not in v)
    rest = S.str('r', n, 'ab-')
    r = stash(S).GetScrComponents(k + '/' + rest + ';m=' + k + '/x' + rest + ';n=' + rest + k)
    e = stash(S).GetScrComponents(v + '/' + rest)
    S.cover('twice')
    S.check(r['scheme'] == e['scheme'] and r['src'] == e['src'], 'location')
    S.check(r['options'] == {'m': v + '/x' + rest, 'n': rest + v}, 'options')
    return sorted(r['options'].items())


def named(S, k, m, quote):
    """named resources of a recipe"""
    lean(S)
    names = []
    uris = []
    for i in range(k):
        n = S.str('n%d' % i, m, 'ab-.')
        has = S.choice('has%d' % i, ['yes', 'no', 'pn', 'other', 'two'])
        u = 'git://x/y%d' % i
        if has == 'yes':
            u = u + ';branch=q;name=' + n + ';protocol=https'
            names.append(n)
        elif has == 'pn':
            u = u + ';name=${PN}-' + n
            names.append('r-' + n)
        elif has == 'two':
            u = u + ';branch=q,p;name=' + n + ',c${PN}'
            names += [n, 'cr']
        elif has == 'other':
            u = u + ';names=' + n + ';surname=' + n
        uris.append(u)
    sep = S.choice('sep', [' ', ' \\\n    ', '\t'])
    text = 'SRC_URI ' + S.choice('op', ['=', '+=']) + ' "' + sep.join(uris[:-1]) + '"\n' + 'SRC_URI:append = " ' + uris[-1] + '"\nSRC = "git://a;name=no"\n'
    S.write('r_1.bb', text)
    p = S.path('r_1.bb')
    st = stash(S)
    st.AddFile(p)
    got = st.GetValidNamedResources(p)
    S.cover('named')
    S.check(sorted(got) == sorted(set(names + ['r'])), 'names of the resources and the recipe')
    return sorted(got)


def units(tier):
    q = tier == 'quick'
    out = []
    for s in SCHEMES:
        for n in range(0, 6 if q else 8):
            out.append(('location', [s, n, [], 0]))
        out += [('location', [s, n, o, 0]) for n in ((1, 2) if q else (1, 2, 3)) for o in ([[1, 1]], [[2, 2]], [[1, 0], [1, 2]], [[1, 3]])]
    out += [('location', ['', n, o, m]) for n in (1, 2, 3) for o in ([], [[1, 1]]) for m in (1, 2, 3)]
    out += [('free', [n, p]) for n in range(1, 7 if q else 9) for p in ('', 'http:', 'git://')]
    out += [('mirror', [i, n]) for i in range(20) for n in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5))]
    out += [('inner', [i, n, m]) for i in range(20) for n, m in (((0, 1), (1, 0)) if q else ((0, 2), (1, 1), (2, 2)))]
    out += [('twice', [i, n]) for i in range(20) for n in ((1,) if q else (1, 2, 3))]
    out += [('named', [k, m, '']) for k, m in ((1, 1), (2, 1), (2, 2), (3, 1))]
    return out
