"""C26: package level queries follow from the statements of the recipe"""
from props.common import *

COVERS = ['image', 'noimage', 'imagevar', 'group', 'nogroup', 'packages', 'before', 'linked', 'strip', 'dynamic', 'nodynamic', 'invalid', 'configured', 'split', 'resources']
BOUNDS = {
    'quick': 'inherit statements of every kind with up to 3 classes, each a known image class, packagegroup, or an arbitrary name of up to 3 characters, optionally extended by an arbitrary character before or after; up to 3 such statements; the statement in the recipe, an include, a class or a '
             'bbappend; every known image variable, with any operator, override or suffix of up to 2 arbitrary characters, and names extended by an arbitrary character; up to 3 statements setting packages, each with any operator and up to 2 '
             'words of a prefix and up to 2 arbitrary characters; up to 2 statements setting up to 2 source URIs with names of 1 arbitrary character (of 7); dynamic patterns of up to 3 arbitrary characters (literals, dots, stars, braces) against names of up to 3 arbitrary characters; overridden constants',
    'thorough': 'names with 1 character more everywhere',
}
ASSUMPTIONS = ['packages are not removed by :remove', 'no inline python in lists of packages']

CLASSES = ['baremetal-image', 'core-image', 'image', 'image-container', 'image-live', 'kernel-fitimage', 'kernel-uimage', 'license_image', 'testimage']
STM = ['inherit %s\n', 'inherit_defer %s\n', 'INHERIT += "%s"\n', '  inherit\t%s\n']
OPS = [' = ', ' += ', ' ?= ', '=', ' .= ', ' := ', ' ??= ', ' =+ ', ' =. ']


def cls(S, name, kind, n, j=0):
    if kind == 'pre':
        return S.str(name, n, 'ceg-') + 'image'
    if kind == 'post':
        return ('image', 'packagegroup', 'core-image')[j] + S.str(name, n, 'ces-_')
    if kind == 'own':
        return S.str(name, n, 'imagecors-')
    return kind


def place(S, where, text):
    """a recipe with a statement somewhere in what belongs to it"""
    S.write('conf/layer.conf', '')
    extra = {'recipe': text, 'include': 'require i.inc\n', 'class': 'inherit zz\n', 'append': '', 'other': ''}[where]
    S.write('a_1.0.bb', 'A = "1"\n' + extra + 'B = "image packagegroup"\n')
    if where == 'include':
        S.write('i.inc', text)
    if where == 'class':
        S.write('classes/zz.bbclass', text)
    st = stash(S)
    if where == 'append':
        S.write('x/a_%.bbappend', text)
        st.AddFile(S.path('x/a_%.bbappend'))
    if where == 'other':
        S.write('b_1.0.bb', text)
        st.AddFile(S.path('b_1.0.bb'))
    st.AddFile(S.path('a_1.0.bb'))
    st.Finalize()
    if where not in ('recipe', 'other'):
        S.cover('linked')
    return st, S.path('a_1.0.bb')


def classes(S, stm, kinds, n, where):
    """inherited classes make an image or package group"""
    names = [cls(S, 'c%d' % i, k, n, i % 3) for i, k in enumerate(kinds)]
    st, p = place(S, where, stm % S.choice('sep', [' ', '  ', '\t']).join(names))
    img = any([x == y for x in names for y in CLASSES]) and where != 'other'
    grp = any([x == 'packagegroup' for x in names]) and where != 'other'
    S.check(st.IsImage(p) == img, 'image')
    S.check(st.IsPackageGroup(p) == grp, 'package group')
    if where == 'other':
        q = S.path('b_1.0.bb')
        S.check(st.IsImage(q) == any([x == y for x in names for y in CLASSES]) and st.IsPackageGroup(q) == any([x == 'packagegroup' for x in names]), 'the other recipe')
    S.cover('image' if img else 'noimage')
    S.cover('group' if grp else 'nogroup')
    return [img, grp]


def split(S, stms, where, n):
    """classes inherited by several statements"""
    names = [S.choice('k%d' % i, ['image', 'packagegroup', 'foo']) + (S.str('c%d' % i, n, 'a-') if n else '') for i in range(len(stms))]
    st, p = place(S, where, ''.join([s % x for s, x in zip(stms, names)]))
    img, grp = any([x == 'image' for x in names]), any([x == 'packagegroup' for x in names])
    S.check(st.IsImage(p) == img, 'image')
    S.check(st.IsPackageGroup(p) == grp, 'package group')
    S.cover('split')
    return [img, grp]


def variables(S, pre, n, m, where, op, new):
    """variables that only images set"""
    known = S.mod('oelint_parser.constants').CONSTANTS.ImagesVariables
    S.check(len(known) > 0, 'there are known variables')
    v = known[S.choice('v', list(range(len(known))))] if not pre else 'IMAGE_' + S.str('s', n, 'FLINRST_')
    full = v + (':' + S.str('o', m, 'ab') if m else '') if new else S.str('p', m, 'AX') + v
    st, p = place(S, where, full + op + '"1"\n')
    base = v if new else full
    S.assume(not base.endswith('_') and '__' not in base)
    exp = any([base == x for x in known])
    S.check(st.IsImage(p) == exp, 'image')
    S.check(st.IsPackageGroup(p) is False, 'no package group')
    S.cover('imagevar' if exp else 'noimage')
    return exp


def packages(S, stms, n, where):
    """valid package names"""
    lean(S)
    words = []
    text = ''
    for i, (var, op, pre) in enumerate(stms):
        ws = []
        for j, x in enumerate(pre):
            ws.append(x + S.str('w%d.%d' % (i, j), n, 'a-+'))
        text += var + op + '"' + S.choice('q%d' % i, ['', ' ']) + S.choice('sep%d' % i, [' ', ' \\\n    ', '\t', '   ']).join(ws) + '"\n'
        if var.startswith('PACKAGE_BEFORE_PN'):
            S.cover('before')
        if var not in ('PACKAGES_X', 'XPACKAGES'):
            words += [x for x in ws if x]
    st, p = place(S, where, 'Q = "q1"\n' + text)
    base = []
    for pn in ('${PN}', 'a'):
        base += [pn] + [pn + '-' + x for x in ('ptest', 'src', 'dbg', 'staticdev', 'dev', 'doc', 'locale')]
    if where == 'other':
        words = []

    def sub(w, pn):
        return w.replace('${PN}', pn).replace('${Q}', 'q1').replace('${BPN}', 'a').replace('${PV}', '1.0')
    exp = set(base)
    strip = set(base)
    for w in words:
        for pn in ('${PN}', 'a'):
            exp.add(sub(w, pn))
        strip.add(sub(w, ''))
    got, gst = st.GetValidPackageNames(p), st.GetValidPackageNames(p, strippn=True)
    S.check(sorted(got) == sorted(exp), 'names of the packages')
    S.check(sorted(set(gst)) == sorted(strip), 'names of the packages without the name of the recipe')
    S.check(sorted(st.GetValidPackageNames(p)) == sorted(exp), 'asking again')
    S.cover('packages')
    S.cover('strip')
    return sorted(got), sorted(gst)


def resources(S, stms, n, where):
    """named resources"""
    lean(S)
    names = []
    text = ''
    for i, (var, op, kinds) in enumerate(stms):
        ws = []
        for j, k in enumerate(kinds):
            x = S.str('n%d.%d' % (i, j), n, 'aZ1-._+')
            u = {'git': 'git://h/p;branch=q;name=' + x, 'first': 'http://h/p-1.tar.gz;name=' + x + ';unpack=0', 'pn': 'https://h/p;name=' + x + '${PN}-' + x, 'two': 'git://h;name=' + x + ',' + x + 'b',
                 'none': 'file://' + x, 'near': 'git://h/name=' + x + ';names=' + x + ';pname=' + x}[k]
            ws.append(u)
            if not var.startswith('X') and not var.endswith('X'):
                names += {'git': [x], 'first': [x], 'pn': [x + 'a-' + x], 'two': [x, x + 'b']}.get(k, [])
        text += var + op + '"' + S.choice('sep%d' % i, [' ', ' \\\n    ', '\t']).join(ws) + '"\n'
    st, p = place(S, where, text)
    exp = set(['a'] + ([] if where == 'other' else names))
    got = st.GetValidNamedResources(p)
    S.check(sorted(got) == sorted(exp), 'names of the resources')
    S.check(sorted(st.GetValidNamedResources(p)) == sorted(exp), 'asking again')
    S.cover('resources')
    return sorted(got)


def dynamic(S, stms, n, m, where):
    """dynamic packages: the pattern matches from the start of the name"""
    lean(S)
    words = []
    text = ''
    for i, (var, op, pre) in enumerate(stms):
        w = pre + S.str('w%d' % i, n, 'ab.')
        text += var + op + '"' + w + S.choice('t%d' % i, ['', ' ', ' \\\n ']) + '"\n'
        if var.split(':')[0] == 'PACKAGES_DYNAMIC':
            words.append(w)
    st, p = place(S, where, text)
    exp = [] if where == 'other' else [w.replace('${PN}', 'a').replace('^', '') for w in words]
    name = S.choice('nm', ['', '${PN}-', 'a-']) + S.str('n', m, 'ab-')

    def hit(pat, s):
        if len(s) < len(pat):
            return False
        return all([c == '.' or c == d for c, d in zip(pat, s)])
    S.check(sorted([x.replace('^', '') for x in st.GetPackagesDynamic(p)]) == sorted(set(exp)), 'patterns')
    r = st.IsDynamicPackage(p, name)
    full = name.replace('${PN}', 'a')
    S.check(r == any([hit(w, full) for w in exp]), 'the name matches a pattern')
    S.check(st.IsDynamicPackage(p, full) == r, 'the expanded name gives the same result')
    S.cover('dynamic' if r else 'nodynamic')
    return r


def invalid(S, n, m):
    """patterns that are no expressions"""
    lean(S)
    w = S.str('w', n, 'a*+()[?|')
    st, p = place(S, 'recipe', 'PACKAGES_DYNAMIC = "%s q-"\n' % w)
    nm = S.str('n', m, 'a*')
    a, b = st.IsDynamicPackage(p, nm), st.IsDynamicPackage(p, 'q-' + nm)
    S.check(a in (True, False), 'an answer for every pattern')
    S.check(b is True, 'other patterns still match')
    S.cover('invalid')
    return a


def config(S, n):
    """known classes and variables come from the constants"""
    c, v, x = S.str('c', n, 'ab'), S.str('v', n, 'AB'), S.str('x', n, 'ab')
    m = S.mod('oelint_parser.constants').CONSTANTS
    m.OverrideConstants({'images': {'known-classes': [c], 'known-variables': [v]}})
    st, p = place(S, 'recipe', S.choice('t', ['inherit image ', 'inherit ']) + x + '\n' + S.choice('u', ['A', 'B', 'AB', 'IMAGE_INSTALL']) + ' = "1"\n')
    names = [y.VarName for y in st.GetItemsFor(filename=p, classifier='Variable')]
    S.check(st.IsImage(p) == (x == c or any([y == v for y in names])), 'image')
    S.cover('configured')
    return st.IsImage(p)


def units(tier):
    q = tier == 'quick'
    N = (0, 1) if q else (0, 1, 2)
    out = []
    W = ['recipe', 'include', 'class', 'append', 'other']
    for s in STM:
        out += [('classes', [s, [c], 0, 'recipe']) for c in CLASSES + ['packagegroup']]
        out += [('classes', [s, ks, n, w]) for ks in (['pre'], ['post'], ['own', 'post'], ['post', 'post', 'post'], ['own', 'packagegroup', 'pre'], ['post', 'own', 'packagegroup']) for n in N[:2] for w in (W if s == STM[0] else W[:1])]
        out += [('classes', [s, ['own'], n, 'recipe']) for n in (1, 2, 3)]
    out += [('split', [[a, b, c][:k], w, 0]) for a, b, c in ((STM[0], STM[0], STM[0]), (STM[1], STM[0], STM[2]), (STM[2], STM[1], STM[0]), (STM[0], STM[2], STM[1])) for k in (2, 3) for w in ('recipe', 'include')]
    for o in OPS:
        out += [('variables', [False, 0, m, 'recipe', o, new]) for m in (0, 1) for new in (0, 1)]
    for w in W[1:4]:
        out += [('variables', [False, 0, 0, w, ' = ', 1])]
    out += [('variables', [True, n, m, 'recipe', ' = ', new]) for n in (1, 2) for m in (0, 1, 2) for new in (0, 1)]
    P = ['${PN}', '${PN}-', '', 'x', '${Q}-', 'p${PN}', '${BPN}-', '${PV}${PN}']
    for o in OPS:
        out += [('packages', [[['PACKAGES', o, ['${PN}-', 'x']]], n, 'recipe']) for n in N]
    for v in ('PACKAGES:append', 'PACKAGE_BEFORE_PN', 'PACKAGES:prepend', 'PACKAGES_append', 'PACKAGE_BEFORE_PN:append', 'XPACKAGES', 'PACKAGES_X', 'PACKAGES:x'):
        out += [('packages', [[[v, ' = ', [a, 'y']]], n, 'recipe']) for n in N for a in P[:5]]
    for a in P:
        for b in P:
            out += [('packages', [[['PACKAGES', ' = ', [a, b]]], 1, 'recipe'])]
    for w in W:
        out += [('packages', [[['PACKAGES', ' += ', ['${PN}-']], ['PACKAGE_BEFORE_PN', ' = ', ['${PN}-x', 'y']]], 1, w])]
    out += [('packages', [[['PACKAGES', ' += ', ['${PN}-']], ['PACKAGES', ' = ', ['${Q}x']], ['PACKAGES', ' =+ ', ['z']]], 1, 'recipe'])]
    RK = ['git', 'first', 'pn', 'two', 'none', 'near']
    for o in OPS:
        out += [('resources', [[['SRC_URI', o, [RK[i % 4], 'none']]], n, 'recipe']) for i, n in ((len(o), 1), (len(o) + 1, 2))]
    for v in ('SRC_URI:append', 'SRC_URI:prepend', 'SRC_URI_append', 'SRC_URI:x', 'SRC_URI_X', 'XSRC_URI'):
        out += [('resources', [[[v, ' = ', ['git', k]]], 1, 'recipe']) for k in RK]
    for w in W:
        out += [('resources', [[['SRC_URI', ' = ', ['git']], ['SRC_URI', ' += ', ['two', k]]], n, w]) for k in RK for n in N[1:]]
    for pre in ('', '^', '^${PN}-', '${PN}', 'a-'):
        out += [('dynamic', [[['PACKAGES_DYNAMIC', ' = ', pre]], n, m, 'recipe']) for n in (1, 2, 3) for m in (1, 2, 3)]
    for v in ('PACKAGES_DYNAMIC:append', 'PACKAGES_DYNAMIC', 'PACKAGES_DYNAMICX'):
        out += [('dynamic', [[['PACKAGES_DYNAMIC', ' = ', 'b'], [v, o, '']], 1, 2, w]) for o in (' = ', ' += ') for w in W]
    out += [('invalid', [n, m]) for n in ((1, 2) if q else (1, 2, 3)) for m in (0, 1)]
    out += [('config', [n]) for n in (1, 2)]
    return out
