"""C27: the fingerprint identifies configuration and parsed content"""
from props.common import *

HASHSEEDS = True
COVERS = ['same', 'different', 'option', 'name', 'queries', 'grows', 'linked', 'moved', 'order']
KINDS = ['A%s = "x"', 'A:%s = "x"', 'A = "%s"', 'A = "${%s}"', '%sA = "x"', 'A[%s] = "x"', 'A[b] = "%s"', 'inherit %s', 'inherit_defer %s', 'addtask do_%s', 'addtask do_a after %s', 'addtask do_a before %s', 'deltask %s', 'EXPORT_FUNCTIONS %s',
         'addpylib %s x', 'addpylib x %s', 'addfragments %s a b', 'addfragments x %s b', 'unset %s', 'unset A[%s]', '# %s', 'do_a%s () {\n    :\n}', 'do_a () {\n    %s\n}', 'python do_%s () {\n    a\n}', 'python do_a () {\n    %s\n}',
         'python %s() {\n    a\n}', 'fakeroot do_a%s () {\n    :\n}', 'def %s():\n    a', 'def a():\n    %s', 'def f(a, %s):\n    pass', 'export A = "%s"', 'export %s', 'A ?= "%s"', 'A += "%s"', 'A = "b \\\n    %s"', "A = '%s'", 'A = "${@b%s}"', 'inherit ${%s}',
         'require %s.inc', 'include %s.inc', 'A:append = "%s"', 'A%s += "x"']
OPS = [' = ', ' += ', ' ?= ', ' ??= ', ' := ', ' .= ', ' =+ ', ' =. ', '=', '  =  ']
BOUNDS = {
    'quick': 'one or two statements of every kind, where a part of up to 2 arbitrary characters differs (letters, blanks, quotes, backslashes, braces, comments, separators), in a recipe, an include, a class or a bbappend; statements exchanged by statements of another kind, operator or spelling; added, missing, moved and swapped '
             'statements; names of files of up to 2 arbitrary characters; both options; up to 3 files; all queries between and after adding files; every iteration order of sets and listings, every value of hash() and id()',
    'thorough': 'parts of 3 characters, every pair of statements, both files differ',
}
ASSUMPTIONS = ['files without any statement do not contribute to the fingerprint', 'the checksum algorithm has no collisions']
EXPLAIN = 'checksums are modelled as injective functions of the sequence of hashed text; equal results under arbitrary iteration order are confirmed by real runs under 16 hash seeds'


def build(S, files, order, quiet=True, ask=None, **kw):
    S.write('conf/layer.conf', '')
    for f, t in files.items():
        S.write(f, t)
    st = S.mod('oelint_parser.cls_stash').Stash(quiet=quiet, **kw)
    for f in order:
        st.AddFile(S.path(f))
        if ask:
            ask(st)
    return st


def add(files, where, t):
    """places a text in a recipe or something linked to it"""
    files = dict(files)
    if where == 'recipe':
        files['a_1.0.bb'] = t
    elif where == 'include':
        files['a_1.0.bb'] = 'require i.inc\n'
        files['i.inc'] = t
    elif where == 'class':
        files['a_1.0.bb'] = 'inherit zz\n'
        files['classes/zz.bbclass'] = t
    else:
        files['a_1.0.bb'] = 'A = "1"\n'
        files['x/a_%.bbappend'] = t
    return files


def order_of(where):
    return ['a_1.0.bb'] + (['x/a_%.bbappend'] if where == 'append' else [])


def ask(S, st, k):
    """every query"""
    p = S.path('a_1.0.bb')
    st.GetItemsFor()
    for x in st.GetItemsFor(filename=p):
        str(x)
        x.GetAttributes()
    st.GetItemsFor(filename=p, classifier='Variable', attribute='VarName', attributeValue='A')
    st.GetLinksForFile(p), st.GetRecipes(), st.GetLoneAppends(), st.GetConfFiles(), st.GetBBClasses()
    st.IsImage(p), st.IsPackageGroup(p), st.GetPackagesDynamic(p), st.IsDynamicPackage(p, 'a'), st.GetValidPackageNames(p), st.GetValidNamedResources(p)
    st.ExpandTerm(p, '${A} ${B}'), st.ExpandVar(p), st.GuessRecipeName(p), st.GuessRecipeVersion(p), st.GuessBaseRecipeName(p), st.GetRecipes()
    st.GetFiles(p, '*.bb'), st.GetLayerRoot(p), st.FindLocalOrLayer('a', S.path()), st.GetScrComponents('file://a'), st.SafeLineSplit('a b')
    st.Reduce(st.GetItemsFor(), classifier='Variable')
    st.GetItemsFor().reduce(attribute='VarName', attributeValue='A')
    if k:
        st.Finalize()
    S.cover('queries')


def same(S, tmpl, n, alpha, where, on, opt):
    """equal files, order and options"""
    t = tmpl.replace('%s', S.str('x', n, alpha)) + '\n'
    lean(S)
    files = add({}, where, t)
    kw = {'new_style_override_syntax': bool(opt & 1), 'negative_inline': bool(opt & 2)}
    S.permute(on)
    a = build(S, files, order_of(where), **kw).FingerPrint
    S.permute(False)
    b = build(S, files, order_of(where), quiet=bool(opt & 1), ask=lambda st: ask(S, st, 0), **kw)
    c = b.FingerPrint
    S.check(a == c, 'equal files have the same fingerprint')
    ask(S, b, 1)
    S.check(b.FingerPrint == c, 'queries do not change the fingerprint')
    S.check(b.FingerPrint == b.FingerPrint, 'stable')
    S.seen(a)
    S.cover('same')
    S.cover('order')
    if where != 'recipe':
        S.cover('linked')


def diff(S, t1, t2, n1, n2, alpha, where):
    """a different text of a statement"""
    x, y = S.str('x', n1, alpha), S.str('y', n2, alpha)
    a, b = t1.replace('%s', x) + '\n', t2.replace('%s', y) + '\n'
    S.assume(a != b)
    r = [build(S, add({}, where, t), order_of(where)).FingerPrint for t in (a, b)]
    S.check(r[0] != r[1], 'different text, different fingerprint')
    S.cover('different')
    if where != 'recipe':
        S.cover('linked')


def two(S, k1, k2, n, alpha, how):
    """one of several statements is missing, moved or exchanged"""
    x, y = S.str('x', n, alpha), S.str('y', n, alpha)
    a, b = k1.replace('%s', x) + '\n', k2.replace('%s', y) + '\n'
    one = {'a_1.0.bb': a + b, 'b_1.0.bb': 'C = "1"\n'}
    if how == 'missing':
        two = dict(one, **{'a_1.0.bb': a})
    elif how == 'twice':
        two = dict(one, **{'a_1.0.bb': a + b + b})
    elif how == 'file':
        two = {'a_1.0.bb': a, 'b_1.0.bb': b + 'C = "1"\n'}
    elif how == 'swap':
        S.assume(a != b)
        two = dict(one, **{'a_1.0.bb': b + a})
    elif how == 'split':
        one = {'a_1.0.bb': 'A = "%s"\nB = "%s"\n' % (x, y), 'b_1.0.bb': 'C = "1"\n'}
        two = {'a_1.0.bb': 'A = "%s"\nB = "%s"\n' % (y, x), 'b_1.0.bb': 'C = "1"\n'}
        S.assume(x != y)
    elif how == 'other':
        two = dict(one, **{'b_1.0.bb': k2.replace('%s', y) + '\n'})
        S.assume(two['b_1.0.bb'] != one['b_1.0.bb'])
    r = [build(S, f, ['a_1.0.bb', 'b_1.0.bb']).FingerPrint for f in (one, two)]
    S.check(r[0] != r[1], 'different statements, different fingerprint')
    S.cover('moved')


def option(S, kind, n, alpha, o1, o2, files):
    """a different option"""
    t = kind.replace('%s', S.str('x', n, alpha)) + '\n'
    r = [build(S, {'a_1.0.bb': t}, ['a_1.0.bb'][:files], new_style_override_syntax=bool(o & 1), negative_inline=bool(o & 2)).FingerPrint for o in (o1, o2)]
    S.check(r[0] != r[1], 'different options, different fingerprint')
    S.cover('option')


def name(S, n1, n2, alpha, ext, d):
    """a different name of a file"""
    x, y = S.str('x', n1, alpha), S.str('y', n2, alpha)
    S.assume(x != y)
    r = []
    for z in (x, y):
        f = (z + '/a_1' if d else 'r' + z) + ext
        S.write(f, 'A = "1"\n')
        st = stash(S)
        st.AddFile(S.path(f))
        r.append(st.FingerPrint)
    S.check(r[0] != r[1], 'different names, different fingerprint')
    S.cover('name')


def grows(S, ks, n, alpha):
    """every file with statements changes the fingerprint"""
    files = {}
    for i, k in enumerate(ks):
        files[['a_1.0.bb', 'i.inc', 'x/a_%.bbappend', 'b.conf', 'classes/z.bbclass'][i]] = k.replace('%s', S.str('x%d' % i, n, alpha)) + '\n'
    S.write('conf/layer.conf', '')
    for f, t in files.items():
        S.write(f, t)
    st = stash(S)
    fps = [st.FingerPrint]
    S.check(fps[0] == stash(S).FingerPrint, 'empty stash')
    for f in files:
        st.AddFile(S.path(f))
        S.check(all([st.FingerPrint != z for z in fps]), 'the fingerprint covers the added file')
        fps.append(st.FingerPrint)
    S.cover('grows')


def units(tier):
    q = tier == 'quick'
    AL = 'abA_'
    W = ['recipe', 'include', 'class', 'append']
    out = []
    for i, k in enumerate(KINDS):
        out += [('same', [k, 1, AL, W[i % 4], False, i % 4])]
        for n in ((1,) if q else (1, 2, 3)):
            out += [('diff', [k, k, n, n, 'ab' if q or n > 2 else AL, w]) for w in (['recipe', W[i % 4]] if q else W)]
        out += [('diff', [k, k, 1, 2, 'aA' if q else AL, W[(i + 1) % 4]])]
        out += [('option', [k, 1, 'aA', a, b, 1]) for a, b in ((0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3))[(0 if i < 8 or not q else i % 6):(6 if i < 8 or not q else i % 6 + 1)]]
    RICH = 'ab "\\\'#:${}@=\n\t;%_'
    for i, k in enumerate(KINDS):
        out += [('diff', [k, k, n, m, RICH if n + m < 4 else ' "\\\n\t#', W[i % 4] if n + m > 2 else 'recipe']) for n, m in (((1, 1), (0, 1)) if q else ((1, 1), (0, 1), (1, 2), (2, 2)))]
    for k in ('A = "%s"', 'A%s', '%s', 'do_a () {\n    %s\n}', 'addtask %s'):
        out += [('diff', [k, k, n, m, RICH if n + m < 4 else ' "\\\n\t#', 'recipe']) for n, m in ((0, 2), (1, 2), (2, 2))]
    out += [('option', [KINDS[0], 0, 'a', a, b, 0]) for a in range(4) for b in range(a)]
    for k in ('A = "%s"', 'inherit %s', 'addtask do_a before %s after b', 'do_a%s () {\n    :\n}', 'require i%s.inc'):
        out += [('same', [k, 1, 'ab', w, True, 0]) for w in W]
    out += [('diff', ['A%s"x"' % a, 'A%s"x"' % b, 0, 0, 'a', 'recipe']) for i, a in enumerate(OPS) for b in OPS[:i]]
    pairs = [('A = "%s"', "A = '%s'"), ('A = "%s"', 'export A = "%s"'), ('A = "%s"', 'A = "%s" '), ('A = "%s"', 'A = "%s\\\n"'), ('A = "b %s"', 'A = "b  %s"'), ('A = "b %s"', 'A = "b \\\n%s"'), ('A:%s = "x"', 'A_%s = "x"'), ('inherit %s', 'inherit  %s'),
             ('inherit %s', 'inherit_defer %s'), ('require %s.inc', 'include %s.inc'), ('# %s', '#%s'), ('addtask do_%s', 'deltask do_%s'), ('do_a () {\n    %s\n}', 'do_a () {\n  %s\n}'), ('do_a () {\n    %s\n}', 'python do_a () {\n    %s\n}'),
             ('do_%s () {\n    :\n}', 'fakeroot do_%s () {\n    :\n}'), ('A = "${@b}%s"', 'A = "${@c}%s"'), ('A = "${@b}%s"', 'A = "%s${@b}"'), ('A[a] = "%s"', 'A[b] = "%s"'), ('A = "%s\\t"', 'A = "%s\t"'), ('A = "%s"', 'A = "%s"  # a'),
             ('def a():\n    %s', 'def a():\n\t%s'), ('A = "%s"\n\nB = "1"', 'A = "%s"\nB = "1"'), ('unset A[%s]', 'unset A'), ('A = "#%s"', 'A = "%s#"')]
    for a, b in pairs:
        out += [('diff', [a, b, n, n, 'ab', w]) for n in (1,) for w in ('recipe', 'include')]
    two_ = ['A = "%s"', 'inherit %s', '# %s', 'do_a () {\n    %s\n}', 'addtask do_%s', 'unset %s']
    for i, a in enumerate(two_):
        for j, b in enumerate(two_):
            if q and (i + j) % 2 and i != 0:
                continue
            out += [('two', [a, b, 1, 'ab', h]) for h in ('missing', 'twice', 'file', 'swap', 'other')]
    out += [('two', ['', '', n, 'a"\n'[:2], 'split']) for n in (1, 2)]
    for e in ('_1.0.bb', '.inc', '.conf', '.bbclass', '_%.bbappend'):
        out += [('name', [a, b, 'ab_-', e, d]) for d in (0, 1) for a, b in ((1, 1), (1, 2), (2, 2))]
    for i in range(0, len(KINDS), 1 if not q else 3):
        ks = [KINDS[(i + j) % len(KINDS)] for j in range(5)]
        out += [('grows', [ks, 1, 'ab'])]
    return out
