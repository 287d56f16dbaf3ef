"""C28: recipes in one stash do not influence each other"""
from props.common import *

COVERS = ['alone', 'orders', 'append', 'class', 'include', 'shared', 'twin', 'final', 'unfinal', 'lone', 'names']
BOUNDS = {
    'quick': 'a recipe and its include, class and bbappend against a second one with the same kinds of files, whose variables, values and file name are arbitrary texts of up to 2 characters, and therefore equal, similar or unrelated to those of the first; '
             'all orders of adding up to 4 files; recipes of the same name in two directories; includes of the same name in two directories; shared classes, includes and bbappends; with and without finalizing; all queries',
    'thorough': 'texts of 3 characters, up to 5 files, a third recipe',
}
ASSUMPTIONS = ['a file is added once', 'all files belong to the same layer', 'line numbers are compared unless a bbappend applies to both recipes']
A_TEXTS = {
    'plain': 'A = "1"\nB ?= "2"\nA += "${B}"\nD = "x${C}"\n',
    'weak': 'A ??= "1"\nA:append = " 2"\nC = "${A} ${PN}"\nPACKAGES += "${PN}-x"\nunset B\n',
    'image': 'inherit image\nSRC_URI += "file://a;name=n"\nSRCREV_n = "1"\nPACKAGES_DYNAMIC = "^a-.*"\n',
    'func': 'do_a () {\n    :\n}\naddtask do_a before do_b\npython () {\n    pass\n}\nA[b] = "c"\n',
}
INC = 'B += "i"\nA .= "i"\n'


def watch(S, st, f, lines=True):
    """everything the stash tells about a recipe"""
    p = S.path(f)
    items = st.GetItemsFor(filename=p)
    if lines is None:
        return [sorted([(x.Origin, x.InFileLine, x.Raw) for x in items]), sorted(st.GetLinksForFile(p)), st.IsImage(p), st.IsPackageGroup(p), sorted(st.GetPackagesDynamic(p)), sorted(st.GetValidNamedResources(p)),
                sorted(x.Raw for x in items if x.CLASSIFIER == 'Variable' and x.VarName == 'A'), sorted(st.ExpandVar(p)), st.GuessRecipeName(p)]
    o = [[(x.Origin, x.CLASSIFIER, x.InFileLine, x.Raw, x.Line if lines else 0) for x in items]]
    o += [[(x.Origin, x.InFileLine) for x in sorted(items, key=lambda y: y.Line)]]
    o += [[(x.Origin, x.InFileLine) for x in st.GetItemsFor(filename=p, nolink=True)]]
    o += [[x.Raw for x in st.GetItemsFor(filename=p, classifier='Variable', attribute='VarName', attributeValue='A')]]
    o += [sorted(st.GetLinksForFile(p)), sorted(st.ExpandVar(p).items()), [st.ExpandTerm(p, x) for x in ('${A}', '${B} ${C}', '${PN}-${PV}', '${D}')]]
    o += [st.IsImage(p), st.IsPackageGroup(p), sorted(st.GetPackagesDynamic(p)), st.IsDynamicPackage(p, 'a-b'), sorted(st.GetValidPackageNames(p)), sorted(st.GetValidPackageNames(p, strippn=True)), sorted(st.GetValidNamedResources(p))]
    o += [st.GuessRecipeName(p), st.GuessRecipeVersion(p), st.GuessBaseRecipeName(p), p in st.GetRecipes()]
    o += [[sorted(x.Raw for x in st.GetItemsFor(filename=S.path(g))) for g in ([f[:-3] + '_none.bb'])]]
    return o


def build(S, files, order, fin):
    st = stash(S)
    for f in order:
        st.AddFile(S.path(f))
    if fin:
        st.Finalize()
    return st


def perm(S, k, fixed=()):
    rest, out = list(k), []
    while rest:
        # the files of the recipe under test keep their relative order
        cand = [x for x in rest if x not in fixed or not any(y in fixed and list(fixed).index(y) < list(fixed).index(x) for y in rest)]
        x = S.choice('o%d' % len(out), cand)
        rest.remove(x)
        out.append(x)
    return out


def against(S, mine, other, order_mine, order_other, fin, lines=True, target='a_1.0.bb', both=False):
    """results for a recipe with and without other files"""
    lean(S)
    consts = S.mod('oelint_parser.constants').CONSTANTS
    S.write('conf/layer.conf', '')
    for f, t in list(mine.items()) + list(other.items()):
        S.write(f, t)
    order = perm(S, order_mine + order_other, order_mine)
    if both and order.index(target) > order.index(order_other[0]) and S.finding('C28-class'):
        # the position of the items of a class is the one in the file that inherits it first
        lines = None
    ref = watch(S, build(S, mine, order_mine, fin), target, lines)
    S.cover('alone')
    st = build(S, None, order, fin)
    got = watch(S, st, target, lines)
    for i, (a, b) in enumerate(zip(ref, got)):
        S.check(a == b, 'result %d is the same as without the other recipe' % i)
    S.cover('orders')
    S.cover('final' if fin else 'unfinal')
    S.check(watch(S, st, target, lines) == got, 'asking again')


def group(kind, parts, d=''):
    """files of the recipe under test"""
    t = A_TEXTS[kind]
    files, order = {}, [d + 'a_1.0.bb']
    if 'i' in parts:
        t = 'require ia.inc\n' + t
        files[d + 'ia.inc'] = INC
    if 'c' in parts:
        t = t + 'inherit ca\n'
        files['classes/ca.bbclass'] = 'A =. "c"\nCC = "1"\n'
    if 'p' in parts:
        files['p/a_%.bbappend'] = 'A += "p"\nB = "p"\n'
        order.append('p/a_%.bbappend')
    files[d + 'a_1.0.bb'] = t
    return files, order


def content(S, kind, n, op, parts, name, d='', own=True):
    """files of the other recipe"""
    v, x = S.str('v', 1, 'ABC') + S.str('w', n - 1 if n else 0, 'AB_:'), S.str('x', n, '12 $')
    t = {'set': v + op + '"' + x + '"\n', 'unset': 'unset ' + v + '\n', 'cls': 'inherit ' + S.choice('k', ['image', 'packagegroup', 'ca', 'cb']) + '\n' + v + op + '"' + x + '"\n',
         'pkg': S.choice('k', ['PACKAGES', 'PACKAGES_DYNAMIC', 'PN', 'PV', 'SRC_URI']) + op + '"' + x + '"\n', 'func': 'do_a:append () {\n    ' + v + '\n}\n'}[kind]
    files, order = {}, [d + name + '_2.0.bb']
    if 'i' in parts:
        t = 'require ib.inc\n' + t
        files[d + 'ib.inc'] = v + ' .= "' + x + '"\n'
    if 'c' in parts:
        t += 'inherit cb\n'
        files['classes/cb.bbclass'] = v + ' += "' + x + '"\n'
    if 'p' in parts:
        f = 'q/' + name + '_%.bbappend'
        files[f] = v + ' += "q"\n'
        order.append(f)
    files[d + name + '_2.0.bb'] = t
    return files, order


def separate(S, mk, mp, ok, op_, n, op, name, fin):
    """nothing is shared"""
    mine, o1 = group(mk, mp)
    other, o2 = content(S, ok, n, op, op_, name)
    against(S, mine, other, o1, o2, fin, both='c' in mp and any(['inherit ca\n' in t for t in other.values()]))
    for k, lab in (('i', 'include'), ('c', 'class'), ('p', 'append')):
        if k in op_:
            S.cover(lab)


def named(S, n, alpha, parts, fin):
    """the name of the other recipe is arbitrary"""
    nb = S.str('n', n, alpha)
    S.assume(nb != 'a' and nb[0] != '-')
    mine, o1 = group('plain', parts)
    other = {nb + '_2.0.bb': 'A = "9"\nB += "8"\n', 'q/' + nb + '_%.bbappend': 'A += "q"\n'}
    against(S, mine, other, o1, list(other), fin)
    S.cover('names')


def lone(S, n, alpha, kind, fin):
    """bbappends without a recipe"""
    nb = S.str('n', n, alpha)
    pat = {'version': 'a_' + nb + '.bbappend', 'name': nb + '_1.0.bbappend', 'wild': nb + '%.bbappend', 'glob': 'a_1' + nb + '%.bbappend'}[kind]
    mine, o1 = group('plain', 'i')
    full = 'a_1.0'
    if kind in ('version', 'name'):
        S.assume(pat != full + '.bbappend')
    else:
        pre = pat[:-len('%.bbappend')]
        S.assume(not full.startswith(pre))
    S.assume('%' not in nb)
    other = {'q/' + pat: 'A += "q"\n'}
    against(S, mine, other, o1, list(other), fin)
    S.cover('lone')


def twin(S, mk, parts, n, fin, append):
    """a recipe of the same name, and includes of the same name, in another directory"""
    mine, o1 = group(mk, parts, 'm/')
    x = S.str('x', n, 'AB1 ')
    other = {'o/a_2.0.bb': 'require ia.inc\nA += "' + x + '"\n', 'o/ia.inc': 'B = "' + x + '"\n'}
    o2 = ['o/a_2.0.bb']
    lines = True
    if 'p' in parts:
        lines = False
    if append:
        other['q/a_2.%.bbappend'] = 'A .= "q' + x + '"\n'
        o2.append('q/a_2.%.bbappend')
    against(S, mine, other, o1, o2, fin, lines, 'm/a_1.0.bb')
    S.cover('twin')


def shared(S, what, mk, n, fin):
    """files used by both recipes"""
    x = S.str('x', n, 'AB1 ')
    mine, o1 = group(mk, '')
    other, o2 = {'b_2.0.bb': 'A = "' + x + '"\n'}, ['b_2.0.bb']
    lines = True
    body = 'A += "s"\nB ?= "' + x + '"\n'
    if what == 'class':
        for f in ('a_1.0.bb', 'b_2.0.bb'):
            d = mine if f in mine else other
            d[f] = 'inherit cs\n' + d[f]
        mine['classes/cs.bbclass'] = body
    elif what == 'include':
        for f in ('a_1.0.bb', 'b_2.0.bb'):
            d = mine if f in mine else other
            d[f] = 'require s.inc\n' + d[f]
        mine['s.inc'] = body
    elif what == 'nested':
        mine['a_1.0.bb'] = 'require s1.inc\n' + mine['a_1.0.bb']
        other['b_2.0.bb'] = 'require s2.inc\n' + other['b_2.0.bb']
        mine['s1.inc'] = 'require s.inc\nC = "1"\n'
        other['s2.inc'] = 'require s.inc\nC = "2"\n'
        mine['s.inc'] = body
    elif what == 'classinc':
        for f in ('a_1.0.bb', 'b_2.0.bb'):
            d = mine if f in mine else other
            d[f] = 'inherit cs\n' + d[f]
        mine['classes/cs.bbclass'] = 'require s.inc\n'
        mine['s.inc'] = body
    elif what == 'append':
        mine['p/%.bbappend'] = body
        o1.append('p/%.bbappend')
        lines = False
    elif what == 'appendinc':
        mine['p/a_%.bbappend'] = 'require s.inc\n'
        mine['p/s.inc'] = body
        other['p/b_%.bbappend'] = 'require s.inc\n' + other['b_2.0.bb']
        o1.append('p/a_%.bbappend')
        o2.append('p/b_%.bbappend')
    elif what == 'ownappend':
        mine['a_1.0.bb'] = 'require s.inc\n' + mine['a_1.0.bb']
        mine['s.inc'] = body
        other['q/b_%.bbappend'] = 'require ../s.inc\n'
        o2.append('q/b_%.bbappend')
    against(S, mine, other, o1, o2, fin, lines, both=what in ('class', 'classinc'))
    S.cover('shared')


def units(tier):
    q = tier == 'quick'
    out = []
    P = ['', 'i', 'c', 'p', 'icp']
    for mk in A_TEXTS:
        for i, mp in enumerate(P):
            for j, ok in enumerate(('set', 'unset', 'cls', 'pkg', 'func')):
                for fin in (0, 1):
                    if q and (i + j + fin) % 2:
                        continue
                    out += [('separate', [mk, mp, ok, P[(i + j) % 5] if q else w, 1 if q else 2, [' = ', ' += ', ' ?= ', ' .= '][j % 4], 'b', fin]) for w in (P if not q else P[:1])]
    for op in (' = ', ' += ', ' ?= ', ' ??= ', ' .= ', ' =. ', ':append = '):
        out += [('separate', ['plain', '', 'set', '', 2, op, nm, fin]) for nm in ('b', 'aa', 'a-a') for fin in (0, 1)]
    for n in (1, 2) if q else (1, 2, 3):
        out += [('named', [n, 'ab-1.' if n < 3 else 'ab-', p, fin]) for p in ('', 'p') for fin in (0, 1)]
        out += [('lone', [n, 'a1_.0b', k, fin]) for k in ('version', 'name', 'wild', 'glob') for fin in (0, 1)]
    for mk in ('plain', 'weak'):
        out += [('twin', [mk, p, n, fin, ap]) for p in ('', 'i', 'p', 'ip') for n in (0, 1) for fin in (0, 1) for ap in (0, 1)]
        for w in ('class', 'include', 'nested', 'classinc', 'append', 'appendinc', 'ownappend'):
            out += [('shared', [w, mk, n, fin]) for n in ((1,) if q else (1, 2)) for fin in (0, 1)]
    return out
