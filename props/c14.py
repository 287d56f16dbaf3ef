"""C14: linked files are exactly the files reachable by inclusion"""
from props.common import *

COVERS = ['cycle', 'shared', 'append', 'missing', 'class', 'deep', 'direct', 'empty', 'wide', 'places', 'expanded', 'ignored', 'classname']
BOUNDS = {
    'quick': 'inclusion graphs of 2 recipes, 3 includes, 2 classes and 2 bbappends, each recipe with up to 2 and every other file with up to 1 inclusion of any other file (or a missing one), all orders of adding 2 recipes and a bbappend; '
             'graphs of one recipe with 2 inclusions per file, or up to 4 inclusions in the recipe and 1 in each of these; up to 2 classes per statement in any of 5 directories; class names of up to 2 arbitrary characters with and without extension; file names with references; lists of ignored files, also named by references and separated by any blanks; include names of up to 3 arbitrary characters',
    'thorough': 'the same with up to 2 inclusions per file',
}
ASSUMPTIONS = ['names of files refer to variables derived from the file name or set in a file included before (a variable of the including file itself is not known while it is parsed)', 'files at an inclusion distance of 3 and more may be missing (known finding), but files that are not included may never be linked']

REC = ['i1.inc', 'i2.inc', 'c1', 'gone.inc']
OUT = {'i1.inc': ['', 'i2.inc', 'i3.inc', 'c1', 'i1.inc', 'gone.inc'], 'i2.inc': ['', 'i1.inc', 'i3.inc', 'c2'], 'i3.inc': ['', 'i1.inc', 'c1'], 'c1': ['', 'c2', 'i3.inc'], 'c2': ['', 'c1', 'i2.inc']}


def fname(n):
    return n if '.' in n else 'classes/' + n + '.bbclass'


def stm(n):
    if not n:
        return ''
    return ('require ' + n if '.' in n else 'inherit ' + n) + '\n'


def dist(edges, src):
    d = {src: 0}
    todo = [src]
    while todo:
        x = todo.pop(0)
        for y in edges.get(x, []):
            if y not in d and y in edges:
                d[y] = d[x] + 1
                todo.append(y)
    return d


def verify(S, st, edges):
    obs = []
    for f in edges:
        p = S.path(fname(f))
        d = dist(edges, f)
        items = st.GetItemsFor(filename=p)
        got = {x.Origin for x in items}
        for x in got:
            S.check(x in [S.path(fname(y)) for y in d], 'only files that are included are linked')
        for x in items:
            S.check(x.Origin == p or p in x.IncludedFrom, 'the item knows where it is included from')
        for y in d:
            if d[y] >= 3:
                S.cover('deep')
            if S.path(fname(y)) not in got:
                S.check(d[y] >= 3 and S.finding('C14-deep'), 'every included file is linked')
        lk = st.GetLinksForFile(p)
        S.check(sorted(set(lk)) == sorted(got - {p}), 'links are the files of the visible items')
        obs.append(sorted(got))
    return obs


def complete(S, edges, roots, k, w, empty=False):
    """decides the inclusions of every file that is used"""
    todo = list(roots)
    while todo:
        x = todo.pop(0)
        for y in edges[x]:
            if y and y not in edges and y != 'gone.inc':
                edges[y] = [z for z in [S.choice('%s.%d' % (y, i), OUT[y][:w]) for i in range(k)] if z]
                todo.append(y)
            if y in edges and x in dist(edges, y):
                S.cover('cycle')
            if y == 'gone.inc':
                S.cover('missing')
            if y in ('c1', 'c2'):
                S.cover('class')
    S.write('conf/layer.conf', '')
    for n in edges:
        S.write(fname(n), ''.join([stm(x) for x in edges[n]]) + ('' if empty and n.endswith('.bb') else 'M = "1"\n'))


def one(S, a, k, m, w):
    """one recipe"""
    edges = {'r_1.bb': [a] + [S.choice('r%d' % i, REC) for i in range(1, k)]}
    complete(S, edges, list(edges), m, w)
    st = stash(S)
    if S.bool('pre'):
        # the include is also added on its own
        st.AddFile(S.path('i1.inc' if 'i1.inc' in edges else 'r_1.bb'))
        S.cover('direct')
    st.AddFile(S.path('r_1.bb'))
    st.Finalize()
    return verify(S, st, edges)


def two(S, a, b, app, perm, m, w, empty):
    """two recipes sharing files, and a bbappend for the first or for both"""
    edges = {'r_1.bb': [a], 'r_2.bb': [b], app: [S.choice('app', REC[:3])]}
    complete(S, edges, list(edges), m, w, empty)
    files = list(edges)[:3]
    edges['r_1.bb'] = edges['r_1.bb'] + [app]
    if '%' in app:
        edges['r_2.bb'] = edges['r_2.bb'] + [app]
    S.cover('append')
    if a == b:
        S.cover('shared')
    if empty:
        S.cover('empty')
    st = stash(S)
    for i in perm:
        st.AddFile(S.path(files[i]))
    st.Finalize()
    return verify(S, st, edges)


def named(S, n, d, quote):
    """arbitrary name of the included file"""
    nm = S.str('n', n, 'a-_+.%@~,:')
    S.assume(nm not in ('.', '..') and nm[0] not in '.')
    inc = d + nm + '.inc'
    S.write(inc, 'M = "1"\n')
    S.write('r_1.bb', S.choice('st', ['include ', 'require ', 'require\t', '  include  ']) + inc + '\n')
    S.write('x.inc', 'N = "1"\n')
    st = stash(S)
    st.AddFile(S.path('x.inc'))
    st.AddFile(S.path('r_1.bb'))
    st.Finalize()
    got = sorted(set(st.GetLinksForFile(S.path('r_1.bb'))))
    S.check(got == [S.path(inc)], 'the included file is linked')
    i = st.GetItemsFor(filename=S.path('r_1.bb'), classifier='Include')
    S.check(len(i) == 1 and i[0].FileIncluded == S.path(inc), 'the included file is the one found')
    return got


def wide(S, k, kind):
    """many inclusions of one recipe, each of which may include another file"""
    edges = {'r_1.bb': []}
    S.write('conf/layer.conf', '')
    text = ''
    for i in range(k):
        n, m = ('c%d' % i, 'd%d' % i) if kind == 'class' else ('f%d.inc' % i, 'g%d.inc' % i)
        edges['r_1.bb'].append(n)
        deep = S.bool('deep%d' % i)
        edges[n] = [m] if deep else []
        if deep:
            edges[m] = []
            S.write(fname(m), 'M = "1"\n')
        S.write(fname(n), (stm(m) if deep else '') + 'M = "1"\n')
        text += stm(n)
    if kind == 'class' and S.bool('oneline'):
        text = 'inherit ' + ' '.join(edges['r_1.bb']) + '\n'
    S.write('r_1.bb', text)
    st = stash(S)
    st.AddFile(S.path('r_1.bb'))
    st.Finalize()
    S.cover('wide')
    return verify(S, st, edges)


def places(S, stm, k):
    """classes in any of the directories for classes"""
    S.write('conf/layer.conf', '')
    locs = ['classes', 'classes-global'] + (['classes-recipe'] if 'INHERIT' not in stm else [])
    exp = []
    other = S.bool('other')
    for i in range(k):
        l = S.choice('l%d' % i, locs + ['none', 'lib'])
        if l != 'none':
            S.write('%s/c%d.bbclass' % (l, i), 'M = "1"\n')
        if l in locs:
            exp.append(S.path('%s/c%d.bbclass' % (l, i)))
    names = ['c%d' % i for i in range(k)]
    S.write('r/r_1.bb', stm % ' '.join(names))
    S.write('r/q_1.bb', 'A = "1"\n')
    st = stash(S)
    st.AddFile(S.path('r/r_1.bb'))
    if other:
        st.AddFile(S.path('r/q_1.bb'))
    st.Finalize()
    p = S.path('r/r_1.bb')
    S.check(sorted(st.GetLinksForFile(p)) == sorted(exp), 'the classes found are linked')
    S.check(sorted(st.GetBBClasses()) == sorted(exp), 'the classes found')
    S.check(sorted({x.Origin for x in st.GetItemsFor(filename=p)}) == sorted(exp + [p]), 'their items are visible')
    for x in st.GetItemsFor(filename=p):
        S.check(x.IsFromClass == (x.Origin != p) and x.IsFromAppend() is False, 'where the item comes from')
        if x.CLASSIFIER == 'Inherit':
            S.check(sorted(x.FilePaths) == sorted(exp), 'the statement names the files found')
    if other:
        S.check(list(st.GetLinksForFile(S.path('r/q_1.bb'))) == [], 'nothing is linked to another recipe')
    S.cover('places')
    return sorted(exp)


def classname(S, stm, n, ext, two):
    """arbitrary names of classes, also written with their extension"""
    nm = S.str('n', n, 'ab.-_+1')
    S.assume(nm[0] != '.')
    mid = '.bbclass-x' if ext == 'middle' else ''
    S.write('conf/layer.conf', '')
    exp = []
    if S.bool('here'):
        S.write('classes/' + nm + mid + '.bbclass', 'M = "1"\n')
        exp.append(S.path('classes/' + nm + mid + '.bbclass'))
    # neighbours
    S.write('classes/' + nm + mid, 'M = "1"\n')
    S.write('classes/' + nm + mid + '.bbclass.bbclass', 'M = "1"\n')
    text = nm + mid + (ext if ext != 'middle' else '')
    if two:
        S.write('classes/z.bbclass', 'M = "1"\n')
        exp.append(S.path('classes/z.bbclass'))
        text = S.choice('order', ['z ' + text, text + ' z', 'z.bbclass ' + text])
    S.write('r/r_1.bb', stm % text)
    st = stash(S)
    p = S.path('r/r_1.bb')
    st.AddFile(p)
    st.Finalize()
    S.cover('classname')
    S.check(sorted(set(st.GetLinksForFile(p))) == sorted(exp), 'the classes found are linked')
    for x in st.GetItemsFor(filename=p, classifier='Inherit'):
        S.check(sorted(x.FilePaths) == sorted(exp) and x.Class == text, 'the statement names the files found')
    return sorted(exp)


def expanded(S, stm, ref, n, earlier):
    """file names with references to known variables"""
    cls = 'nherit' in stm or 'INHERIT' in stm
    tail = S.str('tail', n, 'ab-_+%')
    x = S.str('x', 2, 'xy-+')
    val = {'${PN}': 'r-native', '${BPN}': 'r', '${PV}': '1', '${X}': x, '${THISDIR}': S.path('sub')}[ref]
    nm = (ref + '/' if ref == '${THISDIR}' else 'a-' + ref) + tail
    S.write('conf/layer.conf', '')
    S.write('x.inc', 'X = "' + x + '"\n')
    inc = 'sub/' + tail + '.inc' if ref == '${THISDIR}' else 'sub/a-' + val + tail + '.inc'
    if cls:
        inc = 'classes/a-' + val + tail + '.bbclass'
    S.write(inc, 'M = "1"\n')
    S.write('sub/r-native_1.bb', ('require x.inc\n' if earlier else '') + stm % (nm if cls else nm + '.inc') + '\n')
    st = stash(S)
    p = S.path('sub/r-native_1.bb')
    st.AddFile(p)
    st.Finalize()
    exp = [S.path(inc)] if ref != '${X}' or earlier else []
    if earlier:
        exp.append(S.path('x.inc'))
    S.cover('expanded')
    S.check(sorted(set(st.GetLinksForFile(p))) == sorted(exp), 'the file named by the expanded text is linked')
    return sorted(exp)


def ignored(S, cls, k):
    """files on the lists of ignored files"""
    m = S.mod('oelint_parser.constants')
    S.write('conf/layer.conf', '')
    text = ''
    exp = []
    names = []
    ref = S.choice('ref', ['', '${PN}'])
    for i in range(k):
        n = 'c%d' % i + ref
        names.append(n)
        text += ('inherit ' + n if cls else 'require ' + n + '.inc') + '\n'
        n = 'c%d' % i + ('r' if ref else '')
        S.write('classes/%s.bbclass' % n if cls else n + '.inc', 'M = "1"\n')
        ig = S.bool('ig%d' % i)
        if ig:
            m.CONSTANTS.AddConstants({'ignore': {'classes' if cls else 'include': [n if cls else n + '.inc']}})
        else:
            exp.append(S.path('classes/%s.bbclass' % n if cls else n + '.inc'))
    form = S.choice('form', ['own', 'one', 'glob']) if cls else 'own'
    if form != 'own':
        text = ('inherit %s\n' if form == 'one' else 'INHERIT += "%s"\n') % S.choice('sep', [' ', '\t', ' \t ', ' \\\n  ']).join(names)
    S.write('r_1.bb', text)
    st = stash(S)
    p = S.path('r_1.bb')
    st.AddFile(p)
    st.Finalize()
    S.cover('ignored')
    S.check(sorted(set(st.GetLinksForFile(p))) == exp, 'exactly the files that are not ignored are linked')
    kind = 'Inherit' if cls else 'Include'
    S.check(len(st.GetItemsFor(filename=p, classifier=kind)) == (k if form == 'own' else 1), 'the statements are known nevertheless')
    return exp


def units(tier):
    q = tier == 'quick'
    out = [('one', [a, k, m, w]) for a in REC for k, m, w in (((1, 1, 9), (2, 1, 3), (1, 2, 2), (2, 2, 2)) if q else ((2, 1, 9), (1, 2, 3), (2, 2, 3), (3, 1, 9)))]
    P = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]
    for a, b in (('i1.inc', 'i1.inc'), ('i1.inc', 'c1'), ('c1', 'i2.inc'), ('c1', 'c1'), ('i1.inc', 'i2.inc'), ('gone.inc', 'i1.inc')):
        for app in ('r_%.bbappend', 'r_1.bbappend'):
            if q:
                out += [('two', [a, b, app, p, 1, 3, e]) for p, e in ((P[0], False), (P[5], False), (P[3], True))]
            else:
                out += [('two', [a, b, app, p, 1, 9, e]) for p in P for e in (False, True)]
                out += [('two', [a, b, app, p, 2, 3, False]) for p in P]
    out += [('named', [n, d, '']) for n in ((1, 2) if q else (1, 2, 3)) for d in ('', 'sub/')]
    out += [('wide', [k, x]) for k in ((3, 4) if q else (3, 4, 5)) for x in ('inc', 'class')]
    out += [('places', [s, k]) for s in ('inherit %s\n', 'inherit_defer %s\n', 'INHERIT += "%s"\n', 'INHERIT = "%s"\n') for k in ((1, 2) if q else (1, 2, 3))]
    out += [('classname', [x + '\n', n, e, t]) for x in ('inherit %s', 'INHERIT += "%s"') for n in ((1, 2) if q else (1, 2, 3)) for e in ('', '.bbclass', 'middle') for t in ((0, 1) if n == 1 else (0,))]
    out += [('expanded', [s, r, t, e]) for s in ('require %s', 'include %s', 'inherit %s', 'INHERIT += "%s"')
            for r, e in (('${PN}', False), ('${BPN}', False), ('${PV}', False), ('${X}', True), ('${X}', False), ('${THISDIR}', False)) if r != '${THISDIR}' or '%s' in s[-2:] and 'herit' not in s
            for t in ((1,) if q else (1, 2))]
    out += [('ignored', [c, k]) for c in (False, True) for k in ((2, 3) if q else (2, 3, 4))]
    return out
