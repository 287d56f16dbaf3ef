"""C02: parsing and querying any text terminates without an exception"""
from props.common import *

COVERS = ['parsed', 'queried']
BOUNDS = {
    'quick': 'one statement out of 34 kinds whose free part is up to 3 arbitrary characters (4 when only parsing); two lines with 1 arbitrary character each; '
             'followed by every query of the item and stash API for this file',
    'thorough': 'the same with up to 4 free characters (5 when only parsing)',
}
ASSUMPTIONS = ['characters are printable ASCII and tab', 'no run exceeds 60000 evaluation steps (a longer one is reported as a hang)']

KINDS = {
    'free': '@', 'var': 'A = "@"', 'varop': 'A @ "x"', 'varname': 'A@= "x"', 'ref': 'A = "${@}"', 'inline': 'A = "${@@}"', 'open': 'A = "${@@"',
    'comment': '#@', 'func': 'do_x@() {', 'func2': 'f() {@\n}\n', 'python': 'python @ () {', 'def': 'def @(d):', 'inherit': 'inherit @', 'inheritg': 'INHERIT += "@"',
    'include': 'include @', 'require': 'require @', 'addtask': 'addtask @', 'addtask2': 'addtask a before @', 'deltask': 'deltask @', 'unset': 'unset @',
    'export': 'export @', 'flag': 'A[@] = "x"', 'expfn': 'EXPORT_FUNCTIONS @', 'pylib': 'addpylib ${LAYERDIR}/@ x', 'frag': 'addfragments @ a b',
    'incall': 'include_all @', 'append': 'A:@ = "x"', 'cont': 'A = "@\\', 'uri': 'SRC_URI = "@"', 'pkgs': 'PACKAGES = "@"', 'dyn': 'PACKAGES_DYNAMIC = "@"',
    'getvar': "A = \"${@d.getVar('@')}\"", 'contains': "A = \"${@bb.utils.contains(@)}\"", 'self': 'A = "${A}@"', 'rf': "A = \"${@oe.utils.read_file('@')}\"",
}


def fill(kind, s):
    t = KINDS[kind]
    i = t.rindex('@') if kind not in ('inline', 'open', 'getvar', 'contains', 'rf') else t.index('@', t.index('${@') + 3)
    return t[:i] + s + t[i + 1:]


def query(S, st, p, items):
    st.Finalize()
    out = []
    for it in st.GetItemsFor(filename=p):
        it.get_items()
        it.GetAttributes()
        it.IsFromAppend()
        repr(it)
        if it.CLASSIFIER == 'Variable':
            st.ExpandTerm(p, it.VarValueStripped, objref=it)
            it.GetMachineEntry()
            it.GetDistroEntry()
            it.GetClassOverride()
            it.IsMultiLine()
            it.AppendOperation()
            it.get_items(versioned=True)
        if it.CLASSIFIER == 'Function':
            it.GetMachineEntry()
            it.GetDistroEntry()
            it.IsAppend()
        if it.CLASSIFIER == 'FunctionExports':
            it.get_items_unaliased()
        out.append(it.CLASSIFIER)
    d = st.ExpandVar(p)
    st.IsImage(p)
    st.IsPackageGroup(p)
    st.GetValidPackageNames(p)
    st.GetValidNamedResources(p)
    st.GetPackagesDynamic(p)
    st.GetLinksForFile(p)
    st.GetRecipes()
    st.GetLoneAppends()
    st.GetBBClasses()
    st.GetConfFiles()
    S.cover('queried')
    return out, len(d)


def one(S, kind, n, eol, q):
    s = S.str('s', n, LINE)
    text = fill(kind, s) + ('\n' if eol else '')
    return run(S, text, q)


def run(S, text, q):
    S.write('a_1.0.bb', text)
    p = S.path('a_1.0.bb')
    st = stash(S)
    items = st.AddFile(p)
    S.check(len(text) == 0 or len(items) > 0, 'at least one item for a non-empty file')
    S.cover('parsed')
    if q:
        return query(S, st, p, items)
    return [x.CLASSIFIER for x in items]


def two(S, a, n):
    b = S.choice('b', [k for k in KINDS])
    return run(S, fill(a, S.str('s', n, LINE)) + '\n' + fill(b, S.str('t', n, LINE)), False)


def units(tier):
    q = tier == 'quick'
    out = []
    for k in KINDS:
        for n in range(0, 4 if q else 5):
            out.append(('one', [k, n, True, True]))
        out.append(('one', [k, 4 if q else 5, False, False]))
        out.append(('two', [k, 1]))
    return out
