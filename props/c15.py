"""C15: a bbappend is linked to exactly the recipes its name matches"""
from props.common import *

COVERS = ['match', 'nomatch', 'wild', 'lone', 'after', 'before', 'two', 'dir']
BOUNDS = {
    'quick': 'recipe and bbappend names of up to 5 arbitrary characters each (of 7, including dots, letters of both cases, regular expression characters and percent signs), both orders of adding, up to 2 recipes and 2 bbappends, in the same or other directories',
    'thorough': 'names of up to 6 arbitrary characters',
}
ASSUMPTIONS = ['names are not empty and have no line breaks']


def wild(pat, name):
    if '%' not in pat:
        return pat == name
    parts = pat.split('%')
    first, last = parts[0], parts[-1]
    if len(name) < len(first) + len(last) or not name.startswith(first) or not name.endswith(last):
        return False
    pos = len(first)
    end = len(name) - len(last)
    for p in parts[1:-1]:
        i = name.find(p, pos, end)
        if i < 0:
            return False
        pos = i + len(p)
    return True


def origins(items):
    return sorted({x.Origin for x in items})


def match(S, n, m, first, d):
    r = S.str('r', n, 'aA_.+*')
    a = S.str('a', m, 'aA_.+%')
    S.assume(r[0] not in '.*' and a[0] != '.')
    rec, app = r + '.bb', d + a + '.bbappend'
    S.write(rec, 'A = "1"\n')
    S.write(app, 'B = "1"\nrequire inc/x.inc\n')
    S.write('inc/x.inc', 'C = "1"\n')
    S.write(d + 'inc/x.inc', 'C = "1"\n')
    S.write('other.bb', 'A = "2"\n')
    st = stash(S)
    files = [app, 'other.bb', rec] if first else ['other.bb', rec, app]
    S.cover('before' if first else 'after')
    if d:
        S.cover('dir')
    for f in files:
        st.AddFile(S.path(f))
    st.Finalize()
    exp = wild(a, r)
    oth = wild(a, 'other')
    S.cover('match' if exp else 'nomatch')
    if '%' in a and exp:
        S.cover('wild')
    got = origins(st.GetItemsFor(filename=S.path(rec)))
    want = sorted([S.path(rec)] + ([S.path(app), S.path(d + 'inc/x.inc')] if exp else []))
    S.check(got == want, 'files of the recipe')
    go = origins(st.GetItemsFor(filename=S.path('other.bb')))
    S.check((S.path(app) in go) == oth, 'files of the other recipe')
    lone = st.GetLoneAppends()
    S.check(lone == ([] if exp or oth else [S.path(app)]), 'bbappends without recipe')
    if not exp and not oth:
        S.cover('lone')
    S.check((S.path(app) in st.GetLinksForFile(S.path(rec))) == exp, 'linked to the recipe')
    return [got, lone]


def pair(S, n, pats, order, fin):
    """two bbappends and two recipes"""
    r = [S.str('r', n, 'ab_') + '_1', 'ab_2']
    S.assume(r[0][0] in 'ab')
    a = list(pats)
    names = [r[0] + '.bb', r[1] + '.bb', a[0] + '.bbappend', a[1] + '.bbappend']
    for x in names:
        S.write(x, 'A = "1"\n')
    st = stash(S)
    for i in order:
        st.AddFile(S.path(names[i]))
    if fin:
        st.Finalize()
    S.cover('two')
    obs = []
    for i in (0, 1):
        got = origins(st.GetItemsFor(filename=S.path(names[i])))
        want = sorted([S.path(names[i])] + [S.path(names[2 + j]) for j in (0, 1) if wild(a[j], r[i])])
        S.check(got == want, 'files of recipe %d' % i)
        obs.append(got)
    lone = st.GetLoneAppends()
    S.check(lone == sorted([S.path(names[2 + j]) for j in (0, 1) if not wild(a[j], r[0]) and not wild(a[j], r[1])]), 'bbappends without recipe')
    return obs + [lone]


PATS = [('%', 'ab_2'), ('a%', 'b_%'), ('a_%', 'ab%_1'), ('%_1', '%b_%'), ('ab_1', 'a_b_1')]


def units(tier):
    q = tier == 'quick'
    out = []
    for n in range(1, 6 if q else 7):
        for m in range(1, 6 if q else 7):
            if n + m <= (8 if q else 12):
                out += [('match', [n, m, f, d]) for f, d in ((True, ''), (False, 'sub/')) + (() if q and n + m > 5 else ((True, 'sub/'), (False, '')))]
    for p in PATS:
        for o in ([0, 1, 2, 3], [2, 3, 0, 1], [2, 0, 3, 1], [1, 3, 0, 2]):
            out += [('pair', [n, list(p), o, f]) for n in ((1, 2) if q else (1, 2, 3, 4)) for f in (False, True)]
    return out
