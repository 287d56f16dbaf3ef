"""C08: the overall line order is the order of textual inclusion"""
from props.common import *

COVERS = ['nested', 'twice', 'class', 'append', 'cycle', 'filler', 'more']
BOUNDS = {
    'quick': 'a recipe of up to 4 statements, each an assignment, a continued assignment, an include, require, inherit, inherit_defer or INHERIT of one or two files (also missing or empty), with included files of up to 2 such statements each, up to 3 levels deep, '
             'and up to 2 arbitrary characters of blank lines, comments and text in between; up to 2 bbappends with an include each, in any order of adding',
    'thorough': 'the same with recipes of up to 5 and included files of up to 3 statements and up to 4 arbitrary filler characters',
}
ASSUMPTIONS = ['markers are single line assignments']

MAIN = ['var', 'long', 'inc:f1.inc', 'inc:f2.inc', 'req:f1.inc', 'inh:c1', 'inh:c1 c2']
F1 = ['var', 'inc:f2.inc', 'inh:c2', 'inc:f1.inc', 'inc:gone.inc', 'long']
F2 = ['var', 'long', 'inc:f1.inc', 'inc:f3.inc']
C1 = ['var', 'long', 'inh:c2', 'req:f3.inc']
MAIN2 = ['var', 'glo:c1', 'glo:c2 c1', 'inc:f1.inc', 'inc:e.inc', 'inh:gone c1', 'fun']
F12 = ['var', 'glo:c2', 'inh:c1 c2', 'inc:e.inc', 'def:c1']
C12 = ['long', 'glo:c2', 'inc:e.inc', 'fun']


def files_of(x):
    if x.startswith('inc:') or x.startswith('req:'):
        return [x[4:]]
    if x[:4] in ('inh:', 'glo:', 'def:'):
        return ['classes/' + c + '.bbclass' for c in x[4:].split()]
    return []


def text_of(name, parts):
    out = ''
    for i, p in enumerate(parts):
        if p == 'var':
            out = out + 'M' + ident(name, i) + ' = "1"\n'
        elif p == 'long':
            out = out + 'M' + ident(name, i) + ' = "1 \\\n 2 \\\n 3"\n'
        elif p.startswith('inc:'):
            out = out + 'include ' + p[4:] + '\n'
        elif p.startswith('req:'):
            out = out + 'require ' + p[4:] + '\n'
        elif p == 'fun':
            out = out + 'do_x() {\n  M\n}\n'
        elif p.startswith('glo:'):
            out = out + 'INHERIT += "' + p[4:] + '"\n'
        elif p.startswith('def:'):
            out = out + 'inherit_defer ' + p[4:] + '\n'
        elif p.startswith('inh:'):
            out = out + 'inherit ' + p[4:] + '\n'
        else:
            out = out + p
    return out


def ident(name, i):
    return ''.join([c for c in name.replace('.bbappend', 'app').replace('classes/', 'cls') if c in ALNUM]).upper() + 'X' + str(i)


def flat(files, name, seen, stack, out):
    """reference: follow every inclusion in place; a class is only read once, a circular inclusion is ignored"""
    if name not in files or name in stack:
        return
    if name.endswith('.bbclass'):
        if name in seen:
            return
        seen.add(name)
    line = 1
    for i, p in enumerate(files[name]):
        if p in ('var', 'long'):
            out.append(('M' + ident(name, i), line))
        line = line + text_of(name, [p]).count('\n')
        for f in files_of(p):
            flat(files, f, seen, stack + [name], out)


def reach(files, name, seen):
    for p in files.get(name, []):
        for f in files_of(p):
            if f not in seen:
                seen.add(f)
                reach(files, f, seen)
    return seen


def pick(S, files, name, opts, k):
    files[name] = [S.choice('%s.%d' % (name, i), opts) for i in range(k)] + ['var']


def order(items):
    return [(x.VarName, x.InFileLine) for x in items if x.CLASSIFIER == 'Variable']


def check(S, files, name):
    S.write('conf/layer.conf', '')
    for n in files:
        S.write(n, text_of(n, files[n]))
    st = stash(S)
    st.AddFile(S.path(name))
    exp = []
    flat(files, name, set(), [], exp)
    items = st.GetItemsFor()
    S.check(order(items) == exp, 'order of the items is the order of inclusion')
    lines = [x.Line for x in items]
    S.check(all(lines[i] < lines[i + 1] for i in range(len(lines) - 1)), 'lines are strictly increasing')
    for x in items:
        S.check(x.Line >= x.InFileLine, 'included text only moves items down')
    return [exp, lines]


def tree(S, k, k1, k2, kc, filler):
    files = {'classes/c2.bbclass': ['var'], 'f3.inc': ['long']}
    pick(S, files, 'r_1.0.bb', MAIN, k)
    if filler:
        fl = S.str('fill', filler, '\n# a') + '\n'
        files['r_1.0.bb'].insert(1, fl)
        S.cover('filler')
    r = reach(files, 'r_1.0.bb', set())
    # what the included files look like is only decided if they are used
    if 'classes/c1.bbclass' in r:
        pick(S, files, 'classes/c1.bbclass', C1, kc)
        S.cover('class')
    if 'f1.inc' in r:
        pick(S, files, 'f1.inc', F1, k1)
        if filler:
            files['f1.inc'].insert(0, S.str('fill1', filler, '\n# a') + '\n')
    if 'f2.inc' in reach(files, 'r_1.0.bb', set()):
        pick(S, files, 'f2.inc', F2, k2)
        S.cover('nested')
        if 'f1.inc' in reach(files, 'r_1.0.bb', set()) and 'f1.inc' not in files:
            pick(S, files, 'f1.inc', F1, k1)
            S.cover('cycle')
    if len([p for p in files['r_1.0.bb'] if p == 'inc:f1.inc']) > 1:
        S.cover('twice')
    return check(S, files, 'r_1.0.bb')


def more(S, k, k1, kc):
    """further kinds of inclusions, and empty files"""
    files = {'classes/c2.bbclass': ['var'], 'e.inc': [S.choice('e', ['', 'var'])]}
    pick(S, files, 'r_1.0.bb', MAIN2, k)
    r = reach(files, 'r_1.0.bb', set())
    if 'f1.inc' in r:
        pick(S, files, 'f1.inc', F12, k1)
    if 'classes/c1.bbclass' in reach(files, 'r_1.0.bb', set()):
        pick(S, files, 'classes/c1.bbclass', C12, kc)
    S.cover('more')
    return check(S, files, 'r_1.0.bb')


def append(S, perm, k, inc):
    """bbappends follow the recipe, in order of adding"""
    files = {'f1.inc': ['long', 'var'], 'f2.inc': ['var', 'inc:f3.inc', 'var'], 'f3.inc': ['long']}
    opts = ['var', 'long', 'inc:f1.inc', 'inc:f2.inc']
    pick(S, files, 'r_1.0.bb', opts, k)
    pick(S, files, 'r_1.0.bbappend', opts if inc else ['var', 'long'], k)
    pick(S, files, 'r_%.bbappend', opts[:3] if inc else ['var'], 1)
    for n in files:
        S.write(n, text_of(n, files[n]))
    st = stash(S)
    exp = []
    flat(files, 'r_1.0.bb', set(), [], exp)
    for i in perm:
        n = ('r_1.0.bb', 'r_1.0.bbappend', 'r_%.bbappend')[i]
        st.AddFile(S.path(n))
        if i:
            flat(files, n, set(), [], exp)
    st.Finalize()
    S.check(order(st.GetItemsFor()) == exp, 'bbappends follow the recipe')
    lines = [x.Line for x in st.GetItemsFor()]
    S.check(all(lines[i] < lines[i + 1] for i in range(len(lines) - 1)), 'lines are strictly increasing')
    S.cover('append')
    return exp


def many(S, first, k):
    """one bbappend for several recipes comes after each of them"""
    files = {'f1.inc': ['long', 'var']}
    for n in ('r_1.bb', 'r_2.bb'):
        pick(S, files, n, ['var', 'long', 'inc:f1.inc'], k)
    pick(S, files, 'r_%.bbappend', ['var', 'long'], k)
    for n in files:
        S.write(n, text_of(n, files[n]))
    st = stash(S)
    names = ['r_1.bb', 'r_2.bb']
    names.insert(first, 'r_%.bbappend')
    for n in names:
        st.AddFile(S.path(n))
    st.Finalize()
    app = []
    flat(files, 'r_%.bbappend', set(), [], app)
    for n in ('r_1.bb', 'r_2.bb'):
        got = order(st.GetItemsFor(filename=S.path(n)))
        S.check(got[len(got) - len(app):] == app, 'the bbappend comes last')
    return app


def units(tier):
    q = tier == 'quick'
    out = [('tree', [1, 2, 2, 2, 0]), ('tree', [2, 1, 2, 1, 0]), ('tree', [3, 1, 0, 0, 0]), ('tree', [4, 0, 0, 0, 0])]
    out += [('tree', [1, 1, 1, 0, 1]), ('tree', [1, 1, 0, 0, 2])]
    out += [('append', [list(p), k, i]) for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)) for k in (1,) for i in (0, 1)]
    out += [('many', [f, 1]) for f in (0, 1, 2)] + [('more', [2, 1, 1]), ('more', [3, 1, 0])]
    if not q:
        out += [('tree', [2, 2, 2, 2, 0]), ('tree', [2, 2, 1, 1, 0]), ('tree', [3, 1, 1, 1, 0]), ('tree', [1, 1, 1, 0, 2]), ('tree', [3, 2, 1, 1, 0]), ('tree', [3, 1, 2, 1, 0]), ('tree', [5, 0, 0, 0, 0]), ('tree', [2, 1, 1, 1, 2]), ('tree', [1, 1, 0, 0, 4])]
        out += [('more', [3, 2, 1]), ('more', [3, 1, 2])]
        out += [('append', [list(p), 2, 0]) for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))]
        out += [('many', [f, 2]) for f in (0, 1, 2)]
    return out
