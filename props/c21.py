"""C21: file lookup finds the local file, else the one of the layer"""
from props.common import *

COVERS = ['local', 'layer', 'none', 'dir', 'noroot', 'root', 'nested', 'include', 'inherit', 'global', 'ignored', 'linked']
BOUNDS = {
    'quick': 'layers nested in each other up to 3 levels, each level with or without layer configuration, each candidate location being absent, a file or a directory; local directories of 0 to 2 levels below the layer; 8 relative names with '
             'subdirectories, `..` and `.`, absolute names, and names of up to 6 arbitrary characters out of `xy./`; include, require, inherit, inherit_defer and INHERIT statements naming up to 2 files, ignored or not',
    'thorough': 'names of up to 8 arbitrary characters, statements naming up to 3 files',
}
ASSUMPTIONS = ['paths handed over are absolute and normalised', 'no symbolic links', 'no layer configuration above the scratch directory']

LEVELS = ['', 'l1', 'l1/l2', 'l1/l2/r']      # directories, outer to inner
NAMES = ['x.inc', 'l1/x.inc', 'l2/x.inc', 'l1/l2/x.inc', 'r/x.inc', 'l2/r/x.inc', '../x.inc', './x.inc', '../r/x.inc']


def norm(rel):
    out = []
    for p in rel.split('/'):
        if p in ('', '.'):
            continue
        if p == '..':
            if not out:
                return None
            out.pop()
        else:
            out.append(p)
    return '/'.join(out)


def tree(S, depth):
    """levels with or without layer configuration; x.inc being absent, a file or a directory at every level"""
    conf, kind = {}, {}
    for i, d in enumerate(LEVELS):
        if i > depth + 1:
            break
        pre = d + '/' if d else ''
        S.write(pre + 'keep', '')
        conf[d] = S.bool('conf%d' % i)
        # the directory alone is no layer
        S.write(pre + 'conf/other.conf', '')
        S.write(pre + 'conf/layer.conf', '', conf[d])
        k = S.int('kind%d' % i, 0, 2)
        S.write(pre + 'x.inc', 'A = "1"\n', k == 1)
        S.mkdir(pre + 'x.inc', k == 2)
        kind[pre + 'x.inc'] = k
    return conf, kind


def up(d):
    out = [d]
    while d:
        d = d.rpartition('/')[0]
        out.append(d)
    return out


def expect(conf, kind, local, name):
    """relative path of what is found"""
    def isfile(base):
        rel = norm(base + '/' + name)
        return rel is not None and rel in kind and kind[rel] == 1
    if isfile(local):
        return local
    for d in up(local):
        if conf.get(d, False):
            return d if isfile(d) else None
    return None


def join(*p):
    return '/'.join([x for x in p if x])


def lookup(S, depth, name):
    conf, kind = tree(S, depth)
    st = stash(S)
    local = LEVELS[depth]
    d = expect(conf, kind, local, name)
    got = st.FindLocalOrLayer(name, S.path(local) if local else S.path('x')[:-2])
    if d is None:
        S.check(not got, 'nothing is found')
        S.cover('none')
        if any([k == 2 for k in kind.values()]):
            S.cover('dir')
    else:
        S.check(got == S.path(join(d, name)), 'the expected file is found')
        S.cover('local' if d == local else 'layer')
    return got


def absolute(S, depth, k):
    """an absolute name is that file or nothing"""
    conf, kind = tree(S, depth)
    st = stash(S)
    f = join(LEVELS[k], 'x.inc')
    got = st.FindLocalOrLayer(S.path(f), S.path(LEVELS[depth]) if depth else S.path('x')[:-2])
    S.check(got == (S.path(f) if kind.get(f, 0) == 1 else ''), 'the file or nothing')
    return got


def anyname(S, n, local):
    """arbitrary names"""
    conf = {'': S.bool('c0'), 'l1': S.bool('c1')}
    S.write('conf/layer.conf', '', conf[''])
    S.write('l1/conf/layer.conf', '', conf['l1'])
    S.write('l1/keep', '')
    kind = {'x': 1, 'l1/y': 1, 'l1/x/y': 1, 'y/x': 1}
    for f in kind:
        S.write(f, '')
    dirs = ['', 'l1', 'l1/x', 'y', 'conf', 'l1/conf']
    name = S.str('n', n, 'xy./')
    S.assume(name[:1] != '/')
    # a path through something which is no directory does not exist
    st = stash(S)

    def isfile(base):
        out = [x for x in base.split('/') if x]
        ps = name.split('/')
        for i, p in enumerate(ps):
            here = '/'.join(out)
            if here not in dirs:
                return False
            if p == '..':
                if not out:
                    return False
                out.pop()
            elif p not in ('', '.'):
                out.append(p)
        if ps[-1] in ('', '.', '..'):
            return False
        return '/'.join(out) in kind
    S.assume('..' not in name or name.count('..') < 2)
    S.assume(not (local == '' and name.startswith('..')) and '/..' not in name)
    root = 'l1' if local == 'l1' and conf['l1'] else '' if conf[''] else None
    exp = local if isfile(local) else root if root is not None and isfile(root) else None
    got = st.FindLocalOrLayer(name, S.path(local) if local else S.path('x')[:-2])
    if exp is None:
        S.check(not got, 'nothing is found')
    else:
        S.check(got == S.path((exp + '/' if exp else '') + name), 'the expected file is found')
    return got


def root(S, depth, what):
    """root of the layer of a directory or file"""
    conf, kind = tree(S, depth)
    st = stash(S)
    base = LEVELS[depth]
    p = S.path(base) if base else S.path('x')[:-2]
    if what == 'file':
        p = S.path(join(base, 'keep'))
    if what == 'conf':
        base = join(base, 'conf')
        S.write(join(base, 'a.conf'), '')
        p = S.path(base)
    exp = ''
    for d in up(base):
        if conf.get(d, False):
            exp = S.path(d) if d else S.path('x')[:-2]
            S.cover('root')
            if len([c for c in conf.values() if c]) > 1:
                S.cover('nested')
            break
    got = st.GetLayerRoot(p)
    S.check(got == exp, 'root of the layer')
    if not exp:
        S.cover('noroot')
    return got


def include(S, stm, name, ign, depth):
    """the included file is the one found, and its content is linked"""
    conf, kind = tree(S, depth)
    if ign:
        S.mod('oelint_parser.constants').CONSTANTS.OverrideConstants({'ignore': {'include': ['q', name]}})
    local = LEVELS[depth]
    f = join(local, 'a_1.0.bb')
    S.write(f, '%s %s\nB = "1"\n' % (stm, name))
    st = stash(S)
    items = st.AddFile(S.path(f))
    st.Finalize()
    d = expect(conf, kind, local, name)
    S.check([x.CLASSIFIER for x in items] == ['Include', 'Variable'], 'items of the recipe')
    full = S.path(join(d, name)) if d is not None else ''
    S.check(items[0].FileIncluded == full, 'included file')
    S.check(items[0].IncName == name and items[0].Statement == stm, 'parts of the statement')
    linked = {x.Origin for x in st.GetItemsFor(filename=S.path(f))} - {S.path(f)}
    if d is None or ign:
        S.check(not linked, 'nothing is linked')
        if ign and d is not None:
            S.cover('ignored')
    else:
        S.check(linked == {S.path(norm(join(d, name)))}, 'the included file is linked')
        S.cover('linked')
    S.cover('include')
    return [items[0].FileIncluded, sorted(linked)]


LOCS = {'inherit': ['classes', 'classes-recipe', 'classes-global'], 'inherit_defer': ['classes', 'classes-recipe', 'classes-global'], 'INHERIT': ['classes', 'classes-global']}


def inherit(S, stm, names, ign, where):
    """classes are searched next to the recipe and in the layer, in the documented order"""
    S.write('l/conf/layer.conf', '')
    have = {}
    cl = ['k%d' % i for i in range(names)]
    ext = S.bool('ext')
    for c in cl[:1] if where == 'both' else cl:
        for loc in ('classes', 'classes-recipe', 'classes-global'):
            for base in ('l/r', 'l') if where == 'both' else (where,):
                p = '%s/%s/%s.bbclass' % (base, loc, c)
                k = S.int('%s.%s.%s' % (c, loc, base), 0, 1 if names > 1 and c != 'k0' else 2)
                have[p] = k
                S.write(p, 'V_%s = "1"\n' % c, k == 1)
                if not (names > 1 and c != 'k0'):
                    S.mkdir(p, k == 2)
    if ign:
        S.mod('oelint_parser.constants').CONSTANTS.OverrideConstants({'ignore': {'classes': ['q', 'k0']}})
    shown = [c + ('.bbclass' if ext and i == 0 and not ign else '') for i, c in enumerate(cl)]
    text = 'INHERIT += "%s"\n' if stm == 'INHERIT' else stm + ' %s\n'
    S.write('l/r/a_1.0.bb', text % ' '.join(shown))
    st = stash(S)
    items = st.AddFile(S.path('l/r/a_1.0.bb'))
    st.Finalize()
    exp = []
    for c in cl:
        if ign and c == 'k0':
            S.cover('ignored')
            continue
        hit = None
        for loc in LOCS[stm]:
            for base in ('l/r', 'l'):
                p = '%s/%s/%s.bbclass' % (base, loc, c)
                if hit is None and have.get(p, 0) == 1:
                    hit = p
        if hit is not None:
            exp.append(S.path(hit))
            if 'global' in hit:
                S.cover('global')
    S.check(len(items) == 1 and items[0].CLASSIFIER == 'Inherit', 'one item')
    S.check(items[0].get_items() == shown, 'classes')
    S.check(sorted(items[0].FilePaths) == sorted(exp), 'paths of the classes')
    linked = {x.Origin for x in st.GetItemsFor(filename=S.path('l/r/a_1.0.bb'))} - {S.path('l/r/a_1.0.bb')}
    S.check(linked == set(exp), 'exactly the classes found are linked')
    S.cover('inherit')
    return sorted(linked)


def units(tier):
    q = tier == 'quick'
    out = []
    for d in range(4):
        out += [('lookup', [d, n]) for n in NAMES if norm(LEVELS[d] + '/' + n) is not None and not (n.startswith('..') and d < 2)]
        out += [('absolute', [d, k]) for k in range(4)]
        out += [('root', [d, w]) for w in ('dir', 'file', 'conf')]
    out += [('anyname', [n, l]) for n in range(1, 7 if q else 9) for l in ('', 'l1')]
    for stm in ('include', 'require'):
        for n in ('x.inc', 'l2/x.inc', '../x.inc', 'l1/x.inc'):
            out += [('include', [stm, n, i, d]) for i in (0, 1) for d in (2, 3)]
    for stm in ('inherit', 'inherit_defer', 'INHERIT'):
        for i in (0, 1):
            out += [('inherit', [stm, 1, i, w]) for w in ('l', 'l/r', 'both')] + [('inherit', [stm, 2, i, w]) for w in ('l', 'l/r')]
            if not q:
                out += [('inherit', [stm, 3, i, w]) for w in ('l', 'l/r')]
    return out
