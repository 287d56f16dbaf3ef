"""C22: results do not depend on hash order"""
from props.common import *

HASHSEEDS = True
COVERS = ['recipes', 'links', 'appends', 'classes', 'inherit', 'packages', 'files', 'machines', 'finger', 'expand', 'resources', 'places']
BOUNDS = {
    'quick': 'every order in which sets of up to 4 elements are iterated and directories of up to 3 entries are listed, every value of hash() and id(); up to 4 recipes, includes, classes and bbappends linked in all ways of C14 with one inclusion each; up to '
             '3 classes inherited by one statement; a class and an include in any of 4 places; values of up to 2 arbitrary words; every query of the stash before and after finalizing',
    'thorough': 'sets of up to 5 elements, all combinations with two inclusions per file',
}
ASSUMPTIONS = ['results of type set have no order, and are compared as sets']
EXPLAIN = 'each harness runs the same operations twice, with arbitrary iteration orders and with insertion order, and requires equal results; a counterexample is confirmed by runs of the real code under 16 hash seeds'


def twice(S, f, *a):
    consts = S.mod('oelint_parser.constants').CONSTANTS
    out = []
    for on in (True, False):
        consts.OverrideConstants({'replacements': {'machines': ['qq'], 'distros': ['rr']}})
        S.permute(on)
        out.append(f(S, *a))
    S.check(out[0] == out[1], 'the result does not depend on the order of sets, listings and hashes')
    S.seen(out[0][1])
    return out[0][0]


def rep(st, f):
    return [(x.Origin, x.Line, x.CLASSIFIER, sorted(x.IncludedFrom)) for x in st.GetItemsFor(filename=f)]


def text(st):
    return [st.FingerPrint] + [str(x) for x in st.GetItemsFor()]


def queries(S, st, files):
    o = [st.GetRecipes(), st.GetLoneAppends(), st.GetConfFiles(), st.GetBBClasses(), rep(st, None)]
    for f in files:
        p = S.path(f)
        o += [rep(st, p), st.GetLinksForFile(p), list(st.ExpandVar(p).items()), st.IsImage(p), st.IsPackageGroup(p)]
    return o


def _graph(S, texts, order, lay):
    st = stash(S)
    fps = []
    for f in order:
        st.AddFile(S.path(f))
        fps.append(st.FingerPrint)
    S.cover('finger')
    a = queries(S, st, texts)
    st.Finalize()
    S.cover('links')
    return (a, queries(S, st, texts)), (fps, text(st))


def graph(S, texts, order):
    """linked files"""
    lean(S)
    S.write('conf/layer.conf', '')
    for f, t in texts.items():
        S.write(f, t)
    return twice(S, _graph, texts, order, 0)


def incl(S, k, cls):
    """all ways of linking a recipe, two includes and a class"""
    lean(S)
    S.write('conf/layer.conf', '')
    names = {'a_1.0.bb': '', 'i1.inc': 'require i1.inc', 'i2.inc': 'require i2.inc', 'classes/c1.bbclass': 'inherit c1'}
    if not cls:
        del names['classes/c1.bbclass']
    texts = {}
    for f in names:
        t = ''
        for i in range(k if f.endswith('.bb') else 1):
            x = S.choice('%s.%d' % (f, i), ['', 'require i1.inc', 'require i2.inc', 'inherit c1'][:4 if cls else 3])
            S.assume(x == '' or x != names[f])
            t += x + '\n'
        texts[f] = t + 'A += "%s"\n' % f[:2]
        S.write(f, texts[f])
    return twice(S, _graph, texts, ['a_1.0.bb'], 0)


def _lists(S, names):
    st = stash(S)
    for n in names:
        st.AddFile(S.path(n))
    S.cover('recipes')
    S.cover('appends')
    S.cover('classes')
    o = [st.GetRecipes(), st.GetLoneAppends(), st.GetConfFiles(), st.GetBBClasses()]
    st.Finalize()
    return (o, [st.GetRecipes(), st.GetLoneAppends(), st.GetConfFiles(), st.GetBBClasses()]), text(st)


def lists(S, names, n):
    """lists of files, with arbitrary characters in the names"""
    out = []
    for i, x in enumerate(names):
        d, e = x.rsplit('.', 1)
        f = d + S.str('n%d' % i, n, 'ab') + '.' + e
        S.write(f, 'A = "1"\n')
        out.append(f)
    return twice(S, _lists, out)


def _inherit(S, f):
    st = stash(S)
    items = st.AddFile(S.path(f))
    S.cover('inherit')
    a = [st.GetBBClasses(), [x.Origin for x in st.GetItemsFor()]]
    t = text(st)
    st.Finalize()
    return a + [rep(st, S.path(f)), [sorted(x.FilePaths) for x in items if x.CLASSIFIER == 'Inherit']], t + text(st)


def inherit(S, stm, k, n):
    """representation of inherit statements with several classes"""
    S.write('conf/layer.conf', '')
    cl = []
    for i in range(k):
        c = 'c%d' % i + S.str('c%d' % i, n, 'ab')
        S.write('classes/%s.bbclass' % c, 'A_%d = "1"\n' % i, S.bool('have%d' % i))
        cl.append(c)
    S.write('a_1.0.bb', stm % ' '.join(cl))
    return twice(S, _inherit, 'a_1.0.bb')


def _packages(S, f):
    st = stash(S)
    st.AddFile(S.path(f))
    S.cover('packages')
    S.cover('resources')
    S.cover('expand')
    p = S.path(f)
    return [st.GetValidPackageNames(p) == st.GetValidPackageNames(p, strippn=False), sorted(st.GetValidPackageNames(p)), sorted(st.GetValidPackageNames(p, strippn=True)),
            sorted(st.GetValidNamedResources(p)), sorted(st.GetPackagesDynamic(p)), st.IsDynamicPackage(p, 'a-x'), list(st.ExpandVar(p).items())], text(st)


def packages(S, n):
    """package names, named resources, dynamic packages, expansion"""
    lean(S)
    a, b = S.str('a', n, 'ax'), S.str('b', n, 'ax')
    S.write('a_1.0.bb', 'PACKAGES_DYNAMIC = "%s-. %s.x"\nPACKAGES_DYNAMIC += "zz"\nSRC_URI = "a://b;name=%s c://d;name=%s"\nD = "1"\nC = "2"\nB = "3"\nC:append = "4"\n' % (a, b, a, b))
    return twice(S, _packages, 'a_1.0.bb')


def _files(S):
    st = stash(S)
    st.AddFile(S.path('r/a_1.0.bb'))
    st.AddFile(S.path('q/a_1.0.bbappend'))
    st.Finalize()
    S.cover('files')
    return [st.GetFiles(S.path('r/a_1.0.bb'), '*.patch'), st.GetFiles(S.path('q/a_1.0.bbappend'), '*')], text(st)


def files(S, k, n):
    """files found next to the recipe and its bbappend"""
    S.write('r/a_1.0.bb', 'SRC_URI = "file://a"\n')
    S.write('q/a_1.0.bbappend', 'SRC_URI += "file://b"\n')
    for i in range(k):
        S.write('r/files/%s%d.patch' % (S.str('f%d' % i, n, 'ab'), i), '', S.bool('r%d' % i))
    S.write('q/files/x.patch', '', S.bool('qx'))
    if (k, n) == (2, 0):
        S.write('r/other/x.patch', '', S.bool('rx'))
        S.write('r/files/x.patch', '', S.bool('sx'))
    return twice(S, _files)


def _machines(S, names):
    st = stash(S)
    its = st.AddFile(S.path('r/a_1.0.bb'))
    c = S.mod('oelint_parser.constants').CONSTANTS
    S.cover('machines')
    return [[(x.GetMachineEntry(), x.GetDistroEntry(), x.VarName) for x in its], sorted(c.MachinesKnown), sorted(c.DistrosKnown)], text(st)


def machines(S, k):
    """machines and distros of the layer are found whatever the order of the listing"""
    S.write('conf/layer.conf', '')
    for i in range(k):
        S.write('conf/machine/m%d.conf' % i, '', S.bool('m%d' % i))
    for i in range(max(k - 1, 1)):
        S.write('conf/distro/d%d.conf' % i, '', S.bool('d%d' % i))
    S.write('r/a_1.0.bb', 'A:%s:%s = "1"\nB_%s_%s = "2"\n' % tuple([S.choice('o%d' % i, ['m0', 'm1', 'd0', 'qq']) for i in range(4)]))
    return twice(S, _machines, ['m', 'd'])


def places(S, stm):
    """a class and an include of the same name in several places"""
    lean(S)
    S.write('conf/layer.conf', '')
    for d in ('classes', 'classes-recipe', 'classes-global', 'x/classes'):
        S.write(d + '/c.bbclass', 'A = "%s"\n' % d, S.bool(d))
    for d in ('', 'r', 'x', 'classes'):
        S.write((d + '/' if d else '') + 'i.inc', 'B = "%s"\n' % d, S.bool('i' + d))
    S.write('r/a_1.0.bb', stm + 'require i.inc\n')
    S.cover('places')
    return twice(S, _graph, ['r/a_1.0.bb'], ['r/a_1.0.bb'], 0)


G = [
    ({'a_1.0.bb': 'require i1.inc\nA = "1"\n', 'i1.inc': 'B += "2"\nrequire i2.inc\n', 'i2.inc': 'B += "3"\n'}, ['a_1.0.bb']),
    ({'a_1.0.bb': 'inherit c1 c2\n', 'b_1.0.bb': 'inherit c2\n', 'classes/c1.bbclass': 'B += "2"\ninherit c2\n', 'classes/c2.bbclass': 'B += "3"\n'}, ['b_1.0.bb', 'a_1.0.bb']),
    ({'a_1.0.bb': 'A = "1"\n', 'x/a_1.0.bbappend': 'A += "2"\n', 'y/a_%.bbappend': 'A += "3"\n'}, ['a_1.0.bb', 'x/a_1.0.bbappend', 'y/a_%.bbappend']),
    ({'a_1.0.bb': 'A = "1"\n', 'x/a_1.0.bbappend': 'A += "2"\n', 'y/a_%.bbappend': 'A += "3"\n'}, ['x/a_1.0.bbappend', 'y/a_%.bbappend', 'a_1.0.bb']),
    ({'a_1.0.bb': 'A = "1"\n', 'a_2.0.bb': 'A = "2"\n', 'x/a_%.bbappend': 'A += "2"\nrequire x.inc\n', 'x/x.inc': 'B = "3"\n'}, ['x/a_%.bbappend', 'a_2.0.bb', 'a_1.0.bb']),
    ({'a_1.0.bb': 'A = "1"\ninclude i.inc\ninherit c1\nA += "4"\n', 'x/b_%.bbappend': 'A += "2"\n', 'i.inc': 'A += "2"\n', 'classes/c1.bbclass': 'A += "3"\n'}, ['x/b_%.bbappend', 'a_1.0.bb']),
]
INH = ['inherit %s\n', 'inherit_defer %s\n', 'INHERIT += "%s"\n']


def units(tier):
    q = tier == 'quick'
    out = [('graph', [t, o]) for t, o in G]
    out += [('incl', [1, False]), ('incl', [2, False])]
    for ns in (['a.bb', 'b.bb'], ['a.bb', 'b.bb', 'c.bb'], ['a.bbappend', 'b.bbappend', 'c.bb'], ['x/a.bbappend', 'y/a.bbappend'], ['x/a.bb', 'y/a.bb'], ['y/a.bbclass', 'x/a.bbclass'], ['x/a.conf', 'y/a.conf'], ['a.conf', 'b.conf', 'c.conf'], ['a.bbclass', 'b.bbclass', 'c.bbclass']):
        out += [('lists', [ns, n]) for n in (0, 1)]
    for stm in INH:
        out += [('inherit', [stm, k, n]) for k, n in ((2, 0), (2, 1), (3, 0))]
    out += [('places', [x]) for x in ('inherit c\n', 'inherit_defer c\n')]
    out += [('packages', [n]) for n in (0, 1)]
    out += [('files', [k, n]) for k, n in ((2, 0), (2, 1), (3, 0))]
    out += [('machines', [k]) for k in (1, 2)]
    if not q:
        out += [('incl', [1, True]), ('incl', [2, True]), ('machines', [3])]
        out += [('lists', [['a.bb', 'b.bb', 'c.bb', 'd.bb'], n]) for n in (0, 1)]
        out += [('packages', [2]), ('files', [3, 1]), ('files', [4, 0]), ('inherit', [INH[0], 4, 0])]
    return out
