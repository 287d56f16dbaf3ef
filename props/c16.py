"""C16: recipe name, version and base name follow from the file name"""
from props.common import *

COVERS = ['version', 'noversion', 'more', 'prefix', 'suffix', 'plain', 'dir']
BOUNDS = {
    'quick': 'file names of up to 8 arbitrary characters (of 9) with any of 4 extensions in directories of up to 3 arbitrary characters; base names of 4 parts out of 11 (prefixes, suffixes and text that looks like them) and an arbitrary character',
    'thorough': 'file names of up to 10 arbitrary characters, directories of up to 5, base names of 5 parts',
}
ASSUMPTIONS = ['file names do not start with a dot and have no line breaks', 'a name has one nativesdk prefix and one native or cross suffix at most']


def name(S, n, d, ext):
    """arbitrary file names"""
    b = S.str('n', n, 'ab_.-+1Z~')
    S.assume(b[0] != '.' and (ext or '.' not in b))
    dr = '/' + (S.str('d', d, 'a_./') + '/' if d else '')
    f = dr + b + ext
    if d:
        S.cover('dir')
    st = stash(S)
    parts = b.split('_')
    S.check(st.GuessRecipeName(f) == parts[0], 'name of the recipe')
    v = st.GuessRecipeVersion(f)
    if len(parts) > 1:
        S.cover('version' if len(parts) == 2 else 'more')
        S.check(v == parts[1], 'version of the recipe')
    else:
        S.cover('noversion')
        S.check(v is None, 'no version')
    if ext == '.bb' and not d and parts[0]:
        S.check(st.ExpandTerm(f, '${PN}|${PV}') == parts[0] + '|' + ('1.0' if v is None else v if v else '1.0'), 'expanded name and version')
    return [st.GuessRecipeName(f), v]


PARTS = ['', 'nativesdk-', '-native', '-cross', 'native', 'cross', '-', 'sdk-', 'a', 'nativesdk', '-nativesdk']


def base(S, a, b, k, ver):
    """base name"""
    pn = a + b + ''.join([S.choice('p%d' % i, PARTS) for i in range(2, k)])
    c = S.str('c', 1, 'ab-s.1')
    pos = S.choice('pos', [0, 1, 2])
    pn = c + pn if pos == 0 else pn + c if pos == 1 else a + c + pn[len(a):]
    core = pn
    if core.startswith('nativesdk-'):
        core = core[len('nativesdk-'):]
        S.assume(not core.startswith('nativesdk-'))
        S.cover('prefix')
    if core.endswith('-native'):
        core = core[:-len('-native')]
        S.cover('suffix')
    elif core.endswith('-cross'):
        core = core[:-len('-cross')]
        S.cover('suffix')
    else:
        S.cover('plain')
    S.assume(len(core) > 0 and pn[0] != '.' and not core.startswith('nativesdk-') and not core.endswith('-native') and not core.endswith('-cross'))
    st = stash(S)
    f = '/x/' + pn + ver + '.bb'
    S.check(st.GuessBaseRecipeName(f) == core, 'base name')
    S.check(st.GuessRecipeName(f) == pn, 'name')
    S.check(st.ExpandTerm(f, '${BPN}') == core, 'expanded base name')
    return st.GuessBaseRecipeName(f)


def units(tier):
    q = tier == 'quick'
    out = [('name', [n, d, e]) for n in range(1, 9 if q else 11) for d, e in ((0, '.bb'), (0, '.bbappend'), (0, '.inc'), (0, ''), (2, '.bb'), (3, '.bbclass'), (3 if q else 5, ''))
           if not (q and d and n > 5)]
    out += [('base', [a, b, k, v]) for a in PARTS for b in PARTS for k in ((2, 3) if q else (2, 3, 4, 5)) for v in ('_1.0',)]
    return out
