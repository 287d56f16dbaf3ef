"""C12: queries return exactly the matching items in line order"""
from props.common import *

COVERS = ['file', 'classifier', 'attribute', 'values', 'order', 'link', 'reduce', 'twice', 'many']
BOUNDS = {
    'quick': 'populations of up to 3 items of 4 kinds with arbitrary names (1 letter), lines (1 to 3) and origins (2 files), each criterion given as none, one, or a list, tuple or set of up to 2 (lists and tuples of up to 4) values; '
             'parsed files with an include, with and without links; every attribute constant of every item class',
    'thorough': 'populations of up to 4 items, attribute values of up to 2 arbitrary characters',
}
ASSUMPTIONS = ['None and the empty text stand for no criterion', 'an attribute value is given together with an attribute']

KIND = {'Variable': 'VarName', 'Function': 'FuncName', 'Comment': None, 'Unset': 'VarName'}
L = 'AB'


def make(S, m, kind, name, val, **kw):
    if kind == 'Variable':
        return m.Variable(name, '"' + val + '"', ' = ', inline_blocks=[], rawtext='', realraw='', infileline=1, **kw)
    if kind == 'Function':
        return m.Function(name=name, body='', python=None, fakeroot=None, inline_blocks=[], rawtext='{}', realraw='{}', infileline=1, **kw)
    if kind == 'Unset':
        return m.Unset(name, val, inline_blocks=[], rawtext='', realraw='', infileline=1, **kw)
    return m.Comment(inline_blocks=[], rawtext='# ' + name, realraw='', infileline=1, **kw)


def form(S, name, opts, forms):
    """one criterion, returns (argument, list of values or None)"""
    f = S.choice(name + '.form', forms)
    if f == 'none':
        return None, None
    if f == 'empty':
        return S.choice(name + '.empty', ['', [], ()]), None
    a = S.choice(name + '.a', opts)
    if f == 'one':
        return a, [a]
    b = S.choice(name + '.b', opts)
    return {'list': [a, b], 'tuple': (a, b), 'set': {a, b}}[f], [a, b]


def has(it, kind, attr):
    return attr in it[0].GetAttributes()


def population(S, k, kinds, first):
    m = S.mod('oelint_parser.cls_item')
    out = []
    for i in range(k):
        kind = first if i == 0 else S.choice('kind%d' % i, kinds)
        name = S.str('name%d' % i, 1, L)
        f = S.choice('file%d' % i, ['/x/f1.bb', '/x/f2.bb'])
        n = S.int('line%d' % i, 1, 3)
        out.append((make(S, m, kind, name, 'v', origin=f, line=n), kind, name, f, n))
    return out


def ref(pop, f, cl, at, av):
    res = []
    for it, kind, name, origin, line in pop:
        if f and origin != f:
            continue
        if cl is not None and kind not in cl:
            continue
        if at is not None:
            ok = False
            for a in at:
                if a == KIND[kind]:
                    ok = ok or av is None or any([name == x for x in av])
                elif a == 'Origin':
                    ok = ok or av is None or any([origin == x for x in av])
            if not ok:
                continue
        # insert after everything with the same line
        pos = len(res)
        while pos > 0 and res[pos - 1][1] > line:
            pos -= 1
        res.insert(pos, (it, line))
    return [x for x, _ in res]


def same(got, exp):
    return len(got) == len(exp) and all([got[i] is exp[i] for i in range(len(exp))])


def query(S, first, k, kinds, cforms, aforms, vforms):
    pop = population(S, k, kinds, first)
    st = stash(S)
    for x in pop:
        st.Append(x[0])
    f = S.choice('f', [None, '/x/f1.bb'])
    carg, cl = form(S, 'c', ['Variable', 'Function'], cforms)
    aarg, at = form(S, 'a', ['VarName', 'FuncName'], aforms)
    varg, av = None, None
    if at is not None:
        vf = S.choice('v.form', vforms)
        if vf == 'one':
            a = S.str('v.a', 1, L)
            varg, av = a, [a]
        elif vf != 'none':
            a, b = S.str('v.a', 1, L), S.str('v.b', 1, L)
            varg, av = {'list': [a, b], 'tuple': (a, b), 'set': {a, b}}[vf], [a, b]
    for n, x in (('file', f), ('classifier', cl), ('attribute', at), ('values', av)):
        if x:
            S.cover(n)
    exp = ref(pop, f, cl, at, av)
    if len(exp) > 1 and exp[0] is not [x[0] for x in pop if x[0] in exp][0]:
        S.cover('order')
    got = st.GetItemsFor(filename=f, classifier=carg, attribute=aarg, attributeValue=varg)
    S.check(same(list(got), exp), 'matching items in order')
    red = st.Reduce([x[0] for x in pop], filename=f, classifier=carg, attribute=aarg, attributeValue=varg)
    S.check(same(red, exp), 'filtering a list of all items')
    rl = st.GetItemsFor()
    S.check(same(list(rl), ref(pop, None, None, None, None)), 'all items')
    rl.reduce(filename=f, classifier=carg, attribute=aarg, attributeValue=varg)
    S.check(same(list(rl), exp), 'filtering in place')
    part = st.Reduce(st.Reduce(st.Reduce([x[0] for x in pop], filename=f), classifier=carg), attribute=aarg, attributeValue=varg)
    S.check(same(part, exp), 'filtering step by step')
    dup = st.Reduce([x[0] for x in pop] + [x[0] for x in pop], filename=f, classifier=carg, attribute=aarg, attributeValue=varg)
    S.check(same(dup, exp), 'every item once')
    S.cover('reduce')
    S.cover('twice')
    S.check(len(st.GetItemsFor()) == len(pop), 'the stash is not changed')
    return [[x[0] for x in pop].index(x) for x in exp]


def many(S, k, first, form):
    """three values for a criterion"""
    pop = population(S, k, ['Variable', 'Function', 'Comment'], first)
    st = stash(S)
    for x in pop:
        st.Append(x[0])
    at = S.choice('at', [['VarName', 'FuncName', 'Origin'], ['Origin', 'VarName', 'Value'], ['Line', 'Name', 'FuncName']])
    av = [S.str('v0', 1, L), '/x/f1.bb', 'C'] if S.bool('o') else ['Z', 'Y', S.str('v0', 1, L)]
    cl = S.choice('cl', [['Variable', 'Function', 'Comment'], ['Item', 'Include', 'Function'], ['Comment', 'Export', 'Unset', 'Variable']])
    make_ = {'list': list, 'tuple': tuple}[form]
    got = st.GetItemsFor(classifier=make_(cl), attribute=make_(at), attributeValue=make_(av))
    exp = ref(pop, None, cl, at, av)
    S.check(same(list(got), exp), 'matching items in order')
    S.check(same(st.Reduce([x[0] for x in pop], classifier=make_(cl), attribute=make_(at), attributeValue=make_(av)), exp), 'filtering a list of all items')
    if exp:
        S.cover('many')
    return len(exp)


STM = ['A = "1"', 'B = "1"', 'A = "2"', '# A', 'do_a() {\n  :\n}', 'unset A', 'A[doc] = "1"', 'addtask do_a', 'export A']
CL = {'A = "1"': 'Variable', 'B = "1"': 'Variable', 'A = "2"': 'Variable', '# A': 'Comment', 'do_a() {\n  :\n}': 'Function', 'unset A': 'Unset', 'A[doc] = "1"': 'FlagAssignment', 'addtask do_a': 'TaskAdd', 'export A': 'Export'}
AT = {'VarName': {'A = "1"': 'A', 'B = "1"': 'B', 'A = "2"': 'A', 'unset A': 'A', 'A[doc] = "1"': 'A'}, 'VarValueStripped': {'A = "1"': '1', 'B = "1"': '1', 'A = "2"': '2'}, 'FuncName': {'do_a() {\n  :\n}': 'do_a', 'addtask do_a': 'do_a'},
      'Name': {'export A': 'A'}, 'Flag': {'unset A': None, 'A[doc] = "1"': 'doc'}}


def parsed(S, s0, k, nolink, m):
    """items of parsed files, with links"""
    inc = [s0, S.choice('i1', STM[:m])]
    rec = [S.choice('r%d' % i, STM[:m]) for i in range(k)]
    S.assume(not (inc[0] == inc[1] == '# A'))    # would be one block
    S.write('a.inc', '\n'.join(inc) + '\n')
    S.write('a_1.bb', rec[0] + '\nrequire a.inc\n' + ''.join([x + '\n' for x in rec[1:]]))
    S.write('b_1.bb', 'A = "1"\n')
    p, pi = S.path('a_1.bb'), S.path('a.inc')
    st = stash(S)
    st.AddFile(S.path('b_1.bb'))
    st.AddFile(p)
    st.Finalize()
    allx = [(x, p) for x in rec[:1] + ['require'] + rec[1:]] + [(x, pi) for x in inc]
    seq = [(rec[0], p), ('require', p)] + [(x, pi) for x in inc] + [(x, p) for x in rec[1:]]
    cl = S.choice('cl', [None, 'Variable', ('Variable', 'Function')])
    at = S.choice('at', [None, 'VarName', 'FuncName', 'VarValueStripped', ('VarName', 'Name')])
    av = S.choice('av', [None, 'A', ['1', 'A']]) if at else None
    exp = []
    for x, f in seq:
        if nolink and f != p:
            continue
        if cl and CL.get(x, 'Include') not in (cl if isinstance(cl, tuple) else (cl,)):
            continue
        if at:
            ats = at if isinstance(at, tuple) else (at,)
            avs = av if isinstance(av, list) else [av]
            if not [a for a in ats if x in AT[a] and (av is None or AT[a][x] in avs)]:
                continue
        exp.append((x, f))
    got = st.GetItemsFor(filename=p, classifier=cl, attribute=at, attributeValue=av, nolink=nolink)
    S.check([(x.CLASSIFIER, x.Origin) for x in got] == [(CL.get(x, 'Include'), f) for x, f in exp], 'items of the file and the linked ones')
    for i, x in enumerate(got):
        S.check(exp[i][0] == 'require' or x.Raw.strip() == exp[i][0], 'the matching one')
    S.cover('link')
    return [x.Line for x in got]


TEXT_ALL = """A = "1"
# c
include x.inc
require gone.inc
inherit c1
export B = "1"
do_a() {
    :
}
def foo(d):
    return 1
A[doc] = "1"
EXPORT_FUNCTIONS do_a
addtask do_a before do_build after do_b
deltask do_a
unset A
addpylib ${LAYERDIR}/lib foo
addfragments conf/fragments OE_FRAGMENTS OE_FRAGMENTS_META
include_all conf/foo.conf
foo bar
"""


def constants(S, name):
    """the attribute names offered by the item classes can be queried"""
    S.write('a_1.bb', TEXT_ALL)
    S.write('x.inc', 'C = "1"\n')
    st = stash(S)
    p = S.path('a_1.bb')
    st.AddFile(p)
    m = S.mod('oelint_parser.cls_item')
    # is never made by the parser
    st.Append(m.MissingFile('gone.inc', 'require', origin=p, line=99, infileline=99, inline_blocks=[]))
    c = getattr(m, name)
    items = st.GetItemsFor(classifier=c.CLASSIFIER)
    S.check(len(items) > 0, 'there is an item of ' + name)
    lines = [i for i in range(len(items)) if S.bool('sel%d' % i)]
    for a in ('ATTR_VAR', 'ATTR_VARVAL', 'ATTR_VARRAW', 'ATTR_VARVALSTRIPPED', 'ATTR_LINE', 'ATTR_RAW', 'ATTR_ORIGIN', 'ATTR_INCNAME', 'ATTR_STATEMENT', 'ATTR_FILEINCLUDED', 'ATTR_NAME', 'ATTR_FUNCNAME', 'ATTR_FUNCBODY',
              'ATTR_FLAG', 'ATTR_VARVAL_STRIPPED', 'ATTR_VAROP', 'ATTR_BEFORE', 'ATTR_AFTER', 'ATTR_COMMENT', 'ATTR_FILENAME', 'ATTR_PATH', 'ATTR_NAMESPACE', 'ATTR_VARIABLE', 'ATTR_FLAGGED', 'ATTR_FILE', 'ATTR_CLASS', 'ATTR_VARNAME'):
        if hasattr(c, a):
            got = st.GetItemsFor(classifier=c.CLASSIFIER, attribute=getattr(c, a))
            S.check(same(list(got), list(items)), name + '.' + a + ' is an attribute of the items')
            for i in lines:
                v = items[i].GetAttributes()[getattr(c, a)]
                if v and not isinstance(v, (list, dict, set)):
                    one = st.GetItemsFor(classifier=c.CLASSIFIER, attribute=getattr(c, a), attributeValue=v)
                    S.check(items[i] in one, 'found by its own value')
    return [x.Line for x in items]


CLASSES = ['Variable', 'Comment', 'Include', 'Export', 'Function', 'PythonBlock', 'FlagAssignment', 'FunctionExports', 'TaskAdd', 'TaskDel', 'MissingFile', 'AddPylib', 'AddFragements', 'IncludeAll', 'Inherit', 'Unset', 'Item']


def units(tier):
    q = tier == 'quick'
    out = [('constants', [c]) for c in CLASSES]
    K = ['Variable', 'Function', 'Comment', 'Unset']
    out += [('many', [k, f, x]) for k in ((1, 2) if q else (1, 2, 3)) for f in K[:3] for x in ('list', 'tuple')]
    for f in K:
        out += [('query', [f, 1, K, ['none', 'one', 'list', 'tuple', 'set', 'empty'], ['none', 'one', 'list', 'tuple', 'empty'], ['none', 'one', 'list', 'tuple']])]
        out += [('query', [f, 1, K, ['set'], ['set'], ['set']]), ('query', [f, 2, K[:2], ['none'], ['one'], ['set']])]
        out += [('query', [f, 2, K if c == 'none' else K[:2], [c], [a], [v]]) for c, a, v in (('one', 'none', 'none'), ('none', 'one', 'one'), ('none', 'list', 'one'), ('one', 'one', 'list'))]
        out += [('query', [f, 3, K[:2], [c], [a], [v]]) for c, a, v in (('none', 'none', 'none'), ('none', 'one', 'one'))]
        if not q:
            out += [('query', [f, 2, K, ['none', 'one', 'list'], ['none', 'one', 'list'], ['none', 'one', 'list']])]
            out += [('query', [f, 3, K, [c], [a], [v]]) for c in ('none', 'one', 'list') for a, v in (('none', 'none'), ('one', 'one'), ('one', 'list'), ('list', 'one'), ('list', 'list'))]
            out += [('query', [f, 4, K[:2], [c], [a], [v]]) for c, a, v in (('none', 'none', 'none'), ('none', 'one', 'one'), ('list', 'none', 'none'))]
    for s in STM:
        out += [('parsed', [s, 1, n, 3 if q else 9]) for n in (False, True)]
        if not q:
            out += [('parsed', [s, 2, n, 5]) for n in (False, True)]
    return out
