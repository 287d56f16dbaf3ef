"""C18: variable and function names split losslessly into base and overrides"""
from props.common import *

COVERS = ['old', 'new', 'class', 'modifier', 'package', 'function', 'known', 'distro', 'many']
BOUNDS = {
    'quick': 'names of up to 2 base parts with up to 2 arbitrary characters each and up to 3 overrides, each any of 19 (modifiers, classes, distros, packages, text with 2 dashes) or up to 2 arbitrary characters, in both override syntaxes; 5 or 6 overrides of one arbitrary character with a modifier, class or distro at the begin, middle or end; variables and functions, known and unknown',
    'thorough': 'the same with up to 3 characters per part and 4 overrides; up to 8 short overrides',
}
ASSUMPTIONS = ['names have no empty parts; with the old syntax, parts of the base name of a variable start with an upper case letter or a symbol, overrides with a lower case letter or digit']

CLASSES = ['class-native', 'class-nativesdk', 'class-cross', 'class-target']
MODS = ['append', 'prepend', 'remove']
OVR = ['append', 'prepend', 'remove', 'class-native', 'class-nativesdk', 'class-cross', 'class-target', 'poky', 'poky-tiny', '${PN}', '${PN}-dev', '${PN}-a-b-dev', 'x-y-z', 'machine', 'append-x', 'removed', 'prepend2', 'class-natives', 'a-append']


def overrides(S, first, k, n):
    out = []
    for i in range(k):
        o = first if i == 0 and first is not None else S.choice('o%d' % i, OVR + [''])
        if not o:
            o = S.str('ov%d' % i, n, 'ab9-+.')
            S.assume(o[0] in 'ab9' and o[-1] != '-')
        out.append(o)
    return out


def entries(S, x, ov, dist):
    S.check(x.SubItems == ov, 'overrides in written order')
    c = [o for o in ov if o in CLASSES]
    d = [o for o in ov if o in dist]
    m = [o for o in ov if o not in CLASSES + MODS + ['class-cross', 'machine']]
    if c:
        S.cover('class')
    if d:
        S.cover('distro')
    if [o for o in ov if o in MODS]:
        S.cover('modifier')
    if [o for o in ov if o.startswith('$')]:
        S.cover('package')
    S.check(x.GetDistroEntry() == (d[0] if d else ''), 'distro override')
    S.check(x.GetMachineEntry() == (m[0] if m else ''), 'machine override')
    return c


def parse(S, text, new):
    S.write('a_1.bb', text)
    items = stash(S, new_style_override_syntax=new).AddFile(S.path('a_1.bb'))
    S.check(len(items) == 1, 'one item')
    return items[0]


def var(S, d, new, nb, n, first, k, m):
    """variables"""
    parts = []
    low = d == ':' and (new or k > 0)
    for i in range(nb):
        p = S.str('b%d' % i, n, 'AZ9-a+' if low else 'AZ9-+')
        S.assume(p[-1] != '-' and (p[0] in 'AZa' if i == 0 else low or p[0] in 'AZ'))
        parts.append(p)
    base = '_'.join(parts)
    ov = overrides(S, first, k, m)
    name = d.join([base] + ov)
    x = parse(S, name + ' = "v"\n', new)
    S.cover('new' if d == ':' else 'old')
    S.check(x.VarName == base and x.RawVarName == base, 'base name')
    S.check(x.VarNameComplete == name, 'joining gives the complete name')
    S.check(x.VarNameCompleteNoModifiers == d.join([base] + [o for o in ov if o not in MODS]), 'name without modifiers')
    S.check(x.SubItem == d.join(ov), 'all overrides')
    c = entries(S, x, ov, ['nodistro', 'poky-altcfg', 'poky-bleeding', 'poky-tiny', 'poky'])
    S.check(x.GetClassOverride() == (c[0] if c else ''), 'class override')
    a = [o for o in ov if o in ('append', 'prepend')]
    S.check(x.IsAppend() == (len(a) > 0), 'append or prepend')
    S.check(x.AppendOperation() == [o for o in MODS if o in ov], 'operations')
    S.check(x.IsImmediateModify() == (not [o for o in ov if o in MODS]), 'immediate')
    S.check(x.IsNewStyleOverrideSyntax == (new or (d == ':' and k > 0)), 'override syntax')
    return [x.VarName, x.SubItems, x.VarNameComplete]


def plain(S, n, new):
    """a name in the other syntax has no overrides"""
    b = S.str('b', n, 'AaZ_9')
    S.assume(b[0] in 'AaZ' and b[-1] != '_' and '__' not in b)
    if not new:
        S.assume('_a' not in b and '_9' not in b)
    x = parse(S, b + ' = "v"\n', new)
    S.check(x.VarName == b and x.SubItems == [] and x.VarNameComplete == b, 'no overrides')
    return [x.VarName]


def func(S, d, new, n, first, k, m, known):
    """functions"""
    base = 'do_' + S.str('b', n, 'ab9_+-.')
    S.assume(base[-1] != '_' and '__' not in base)
    if known:
        S.mod('oelint_parser.constants').CONSTANTS.AddConstants({'functions': {'known': [base]}})
        S.cover('known')
    ov = overrides(S, first, k, m)
    S.assume(d == ':' or known or not ov or ov[0] in MODS + CLASSES)
    # a package is not an override of a function
    S.assume(not [o for o in ov if o.startswith('$')])
    name = d.join([base] + ov)
    x = parse(S, S.choice('py', ['', 'python ']) + name + '() {\n    :\n}\n', new)
    S.cover('function')
    S.check(x.FuncName == base, 'base name')
    S.check(x.FuncNameComplete == name, 'joining gives the complete name')
    S.check(x.SubItem == d.join(ov), 'all overrides')
    entries(S, x, ov, ['nodistro', 'poky-altcfg', 'poky-bleeding', 'poky-tiny', 'poky'])
    S.check(x.IsAppend() == ('append' in ov or 'prepend' in ov), 'append or prepend')
    return [x.FuncName, x.SubItems]


def many(S, d, new, k, pos, mod):
    """long lists of overrides"""
    ov = []
    for i in range(k):
        o = mod if i == pos else S.str('ov%d' % i, 1, 'abz')
        ov.append(o)
    name = d.join(['A_B'] + ov)
    x = parse(S, name + ' = "v"\n', new)
    S.check(x.VarName == 'A_B', 'base name')
    S.check(x.VarNameComplete == name and x.SubItem == d.join(ov) and x.SubItems == ov, 'all overrides')
    S.check(x.VarNameCompleteNoModifiers == d.join(['A_B'] + [o for o in ov if o not in MODS]), 'name without modifiers')
    S.check(x.IsImmediateModify() == (mod not in MODS), 'immediate')
    S.check(x.GetClassOverride() == (mod if mod in CLASSES else ''), 'class override')
    S.check(x.GetDistroEntry() == (mod if mod == 'poky' else ''), 'distro override')
    y = parse(S, 'do_a' + d + d.join(ov) + ' () {\n    :\n}\n', new) if d == ':' else None
    if y is not None:
        S.check(y.FuncName == 'do_a' and y.SubItems == ov and y.FuncNameComplete == d.join(['do_a'] + ov), 'function')
    S.cover('many')
    return x.SubItems


def units(tier):
    q = tier == 'quick'
    out = []
    for d, new in ((':', True), (':', False), ('_', False)):
        for f in OVR + ['']:
            for k in ((1, 2) if q else (1, 2, 3)):
                out += [('var', [d, new, nb, n, f or None, k, 2 if q else 3]) for nb, n in (((1, 2), (2, 1)) if q else ((1, 2), (2, 2), (1, 3), (3, 1)))]
            if not q:
                out += [('var', [d, new, 1, 1, f or None, 4, 1])]
            if not f.startswith('$'):
                out += [('func', [d, new, n, f or None, k, 2, kn]) for n, k in (((1, 1), (2, 2)) if q else ((2, 1), (2, 2), (2, 3))) for kn in (False, True)]
        out += [('var', [d, new, nb, n, None, 0, 0]) for nb in (1, 2) for n in ((1, 2) if q else (1, 2, 3))]
        out += [('func', [d, new, n, None, 0, 0, kn]) for n in ((1, 2, 3) if q else (1, 2, 3, 4)) for kn in (False, True)]
    for d, new in ((':', True), (':', False), ('_', False)):
        out += [('many', [d, new, k, i, m]) for k in ((5, 6) if q else (5, 6, 7, 8)) for i in (0, k // 2, k - 1) for m in ('append', 'remove', 'class-native', 'poky')]
    out += [('plain', [n, w]) for n in ((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6, 7)) for w in (False, True)]
    return out
