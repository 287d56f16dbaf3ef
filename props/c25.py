"""C25: appended and removed items are exactly reflected in queries"""
from props.common import *

OPS = ['append', 'appendlist', 'appendquery', 'twice', 'remove', 'removelist', 'removequery', 'unknown', 'partly', 'shuffle']
COVERS = OPS + ['linked', 'conf', 'classes', 'appends', 'image', 'expand', 'raises', 'cached']
BOUNDS = {
    'quick': 'a stash with a recipe, an include, a class, a configuration file and a bbappend (8 items); sequences of 3 out of 10 operations (append and remove of single items, lists, tuples and query results; unknown and partly unknown items); all queries '
             'after every operation, with and without having been asked before; values of up to 1 arbitrary character',
    'thorough': 'sequences of 4 operations',
}
ASSUMPTIONS = ['links between files are those of the files that were parsed']


def setup(S):
    lean(S)
    S.write('conf/layer.conf', '')
    S.write('a_1.0.bb', 'require i.inc\ninherit c\nA = "1"\nIMAGE_INSTALL = "q"\n')
    S.write('i.inc', 'A += "2"\n')
    S.write('classes/c.bbclass', 'B = "3"\n')
    S.write('x.conf', 'C = "4"\n')
    S.write('z_1.0.bbappend', 'D = "5"\n')
    S.write('o/b_1.0.bb', 'PACKAGES = "%s"\nA = "8"\n' % S.str('v', 1, 'pq'))
    S.write('o/y.conf', 'E = "7"\n')
    S.write('o/w_1.0.bbappend', 'F = "7"\n')
    S.write('o/i.inc', 'G = "8"\n')
    st = stash(S)
    for f in ('a_1.0.bb', 'x.conf', 'z_1.0.bbappend'):
        st.AddFile(S.path(f))
    o = stash(S)
    for f in ('o/b_1.0.bb', 'o/y.conf', 'o/w_1.0.bbappend', 'o/i.inc'):
        o.AddFile(S.path(f))
    return st, o


def same(a, b):
    return len(a) == len(b) and all([x is y for x, y in zip(a, b)])


def has(l, x):
    return any([x is y for y in l])


def uniq(l):
    out = []
    for x in l:
        if not has(out, x):
            out.append(x)
    out.sort(key=lambda x: x.Line)
    return out


LINK = {'a_1.0.bb': ['a_1.0.bb', 'i.inc', 'classes/c.bbclass'], 'i.inc': ['i.inc'], 'x.conf': ['x.conf'], 'o/b_1.0.bb': ['o/b_1.0.bb'], 'z_1.0.bbappend': ['z_1.0.bbappend']}


def verify(S, st, ref):
    """all queries follow from the items"""
    allit = uniq(ref)
    S.check(same(st.GetItemsFor(), allit), 'all items')
    for f, ls in LINK.items():
        ls = [S.path(y) for y in ls]
        exp = [x for x in allit if x.Origin in ls]
        p = S.path(f)
        S.check(same(st.GetItemsFor(filename=p), exp), 'items of a file')
        S.check(same(st.GetItemsFor(filename=p, nolink=True), [x for x in exp if x.Origin == p]), 'items of a file without links')
        lk = st.GetLinksForFile(p)
        S.check(sorted(set(lk)) == sorted({x.Origin for x in exp} - {p}), 'links')
        if lk:
            S.cover('linked')
        S.check(same(st.GetItemsFor(filename=p, classifier='Variable', attribute='VarName', attributeValue='A'), [x for x in exp if x.CLASSIFIER == 'Variable' and x.VarName == 'A']), 'items of a variable')
    p = S.path('a_1.0.bb')
    mine = [x for x in allit if x.Origin in [S.path(y) for y in LINK['a_1.0.bb']]]
    for e, g, lab in (('.conf', st.GetConfFiles(), 'conf'), ('.bbclass', st.GetBBClasses(), 'classes'), ('.bbappend', st.GetLoneAppends(), 'appends')):
        S.check(g == sorted({x.Origin for x in ref if x.Origin.endswith(e)}), 'files of kind ' + e)
        if g:
            S.cover(lab)
    img = any([x.CLASSIFIER == 'Variable' and x.VarName == 'IMAGE_INSTALL' for x in mine])
    S.check(st.IsImage(p) == img, 'image')
    S.cover('image')
    ex = st.ExpandVar(p)
    val = []
    for x in mine:
        if x.CLASSIFIER == 'Variable' and x.VarName == 'A':
            val = [x.VarValueStripped] if x.VarOp.strip() == '=' else val + [x.VarValueStripped]
    S.check(ex.get('A', []) == val, 'expanded value')
    S.cover('expand')
    pk = st.GetValidPackageNames(S.path('o/b_1.0.bb'))
    for x in ref:
        if x.Origin == S.path('o/b_1.0.bb') and x.CLASSIFIER == 'Variable' and x.VarName == 'PACKAGES':
            S.check(x.VarValueStripped in pk, 'package names')
    if not any([x.Origin == S.path('o/b_1.0.bb') for x in ref]):
        S.check('p' not in pk and 'q' not in pk, 'package names')


def raises(S, f):
    try:
        f()
    except ValueError:
        S.cover('raises')
        return True
    return False


def step(S, k, op, st, o, ref, foreign):
    n = 'o%d' % k
    known = uniq(ref)
    S.cover(op)
    if op == 'append':
        x = foreign[S.choice(n, [0, 1, 2, 3, 4])]
        st.Append(x)
        return ref + [x]
    if op == 'twice':
        x = (known + foreign)[0]
        st.Append(x)
        return ref + [x]
    if op == 'appendlist':
        m = S.choice(n, ['list', 'tuple', 'empty', 'mixed'])
        x = foreign[:2] if m == 'list' else (foreign[2], foreign[3]) if m == 'tuple' else [] if m == 'empty' else [foreign[4]] + known[:1]
        st.Append(x)
        return ref + list(x)
    if op == 'appendquery':
        x = o.GetItemsFor(classifier='Variable') if S.bool(n) else o.GetItemsFor(filename=S.path('o/i.inc'))
        st.Append(x)
        return ref + list(x)
    if op == 'remove':
        S.assume(len(known) > 0)
        x = known[S.choice(n, [i for i in range(min(len(known), 8))])]
        st.Remove(x)
        out = list(ref)
        out.remove(x)
        return out
    if op in ('removelist', 'removequery'):
        if op == 'removelist':
            w = S.choice(n, [0, 1, 2])
            x = known[:2] if w == 0 else tuple(known[-2:]) if w == 1 else []
        else:
            w = S.choice(n, [0, 1, 2, 3])
            x = st.GetItemsFor() if w == 0 else st.GetItemsFor(classifier='Variable', attribute='VarName', attributeValue='A') if w == 1 else st.GetItemsFor(filename=S.path('a_1.0.bb')) if w == 2 else \
                st.GetItemsFor(filename=S.path('i.inc'))
        keep = list(x)
        st.Remove(x)
        S.check(same(list(x), keep), 'the list handed over is not changed')
        out = list(ref)
        for y in keep:
            out.remove(y)
        return out
    if op == 'unknown':
        x = [y for y in foreign if not has(ref, y)]
        S.assume(len(x) > 0)
        S.check(raises(S, lambda: st.Remove(x[0])), 'removing an unknown item raises')
        return ref
    if op == 'partly':
        x = [y for y in foreign if not has(ref, y)]
        S.assume(len(x) > 0 and len(known) > 0)
        w = S.choice(n, [0, 1, 2])
        y = known[:2] + x[:1] if w == 0 else x[:1] + known[:2] if w == 1 else (known[0], known[0], x[0])
        S.check(raises(S, lambda: st.Remove(y)), 'removing an unknown item raises')
        return ref
    # remove and add again at the end
    S.assume(len(known) > 0)
    x = known[S.choice(n, [i for i in range(min(len(known), 3))])]
    st.Remove(x)
    st.Append(x)
    out = list(ref)
    out.remove(x)
    return out + [x]


def ops(S, first, more, fin, ask):
    st, o = setup(S)
    if fin:
        st.Finalize()
    foreign = list(o.GetItemsFor())
    ref = []
    # order of addition
    for f in ('i.inc', 'classes/c.bbclass', 'a_1.0.bb', 'x.conf', 'z_1.0.bbappend'):
        ref += [x for x in st.GetItemsFor() if x.Origin == S.path(f)]
    if ask:
        S.cover('cached')
        verify(S, st, ref)
    seq = list(first) + [S.choice('op%d' % i, OPS) for i in range(more)]
    for k, op in enumerate(seq):
        ref = step(S, k, op, st, o, ref, foreign)
        if ask or k == len(seq) - 1:
            verify(S, st, ref)
    S.check(same(o.GetItemsFor(), foreign), 'the other stash is not changed')
    return [x.RealRaw for x in st.GetItemsFor()]


def units(tier):
    q = tier == 'quick'
    out = []
    for a in OPS:
        out += [('ops', [[a], 0, f, k]) for f in (0, 1) for k in (0, 1)]
        for b in OPS:
            out += [('ops', [[a, b], 0, 1, k]) for k in (0, 1)]
            if not q:
                out += [('ops', [[a, b], 2, 1, 0])]
        if q:
            out += [('ops', [[a, b, c], 0, 1, 1]) for b in ('append', 'appendquery', 'twice') for c in ('removequery', 'partly')]
    return out
