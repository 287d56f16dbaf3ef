"""C23: a timing-out expression degrades to its default instead of failing"""
from props.common import *

COVERS = ['wrapper', 'default', 'parsed', 'queried', 'untouched', 'timeout']
BOUNDS = {
    'quick': 'every operation of RegexRpl on subjects of up to 3 arbitrary characters with and without timeout and with and without a default; files of one statement of 27 kinds between two comments, parsed and queried (all queries of the stash and of '
             'the items) with a timeout at any single one of the evaluations or at any two of the first 12; values of up to 1 arbitrary character',
    'thorough': 'timeouts at any two of the first 160 evaluations, at any three of the first 24',
}
ASSUMPTIONS = ['a timeout is the TimeoutError raised by the regex module, which can happen for every evaluation that has a limit']
EXPLAIN = 'for each evaluation of an expression a boolean input decides whether it times out'

DOC = {'search': None, 'match': None, 'split': [], 'sub': '', 'finditer': []}


def wrapper(S, op, n, late):
    """documented result of every operation"""
    m = S.mod('oelint_parser.rpl_regex').RegexRpl
    s = S.str('s', n, 'ab ')
    S.timeouts('t', 4)
    t = S.bool('t.0')
    d = S.choice('d', [None, 'x'])
    kw = {} if d is None else {'default': [d] if op in ('split', 'finditer') else d}
    S.cover('wrapper')
    if op == 'search':
        r = m.search('b', s, **kw)
        exp = 'b' if 'b' in s else None
    elif op == 'match':
        r = m.match('[ab]', s, **kw)
        exp = s[:1] if s[:1] not in ('', ' ') else None
    elif op == 'split':
        r = m.split(' ', s, **kw)
        exp = s.split(' ')
    elif op == 'sub':
        r = m.sub('b', 'cc', s, **kw)
        exp = s.replace('b', 'cc')
    else:
        r = list(m.finditer('[ab]', s, **kw))
        exp = [c for c in s if c != ' ']
        late = S.bool('t.1') or S.bool('t.2') or S.bool('t.3')
        k = len(exp)
        # a timeout can also strike while iterating
        t = t or (k >= 1 and S.bool('t.1')) or (k >= 2 and S.bool('t.2')) or (k >= 3 and S.bool('t.3'))
    if t:
        S.cover('default')
        S.check(r == (kw['default'] if kw else DOC[op]), 'the documented default is returned')
        return r
    if op in ('search', 'match') and r is not None:
        r = r.group(0)
    if op == 'finditer':
        r = [x.group(0) for x in r]
    S.check(r == exp, 'result without timeout')
    return r


K = {
    'var': 'A = "@ b"', 'append': 'A:append = "@"', 'remove': 'A:remove:x = "@ b"', 'cont': 'A = "@ \\\n b"', 'ref': 'A = "${B}@"', 'inline': "A = \"${@f(d, '@')}\"", 'contains': "A = \"${@bb.utils.contains('x', 'y', '@', 'z', d)}\"",
    'getvar': "A = \"@${@d.getVar('B')}\"", 'comment': '# @\n#b', 'func': 'do_x() {\n    @\n}', 'python': 'python do_x () {\n    @\n}', 'def': 'def f(d):\n    @\n    return 1', 'inherit': 'inherit a@', 'inheritg': 'INHERIT += "a@"', 'include': 'include a@.inc',
    'addtask': 'addtask do_a@ before do_b after do_c', 'deltask': 'deltask do_a@', 'unset': 'unset A@', 'export': 'export A@ = "1"', 'flag': 'A[b@] = "x"', 'expfn': 'EXPORT_FUNCTIONS do_a@', 'pylib': 'addpylib ${LAYERDIR}/a@ b', 'frag': 'addfragments a@ b c',
    'incall': 'include_all a@', 'uri': 'SRC_URI = "git://a/@;name=b"', 'pkgs': 'PACKAGES = "a ${PN}-@"', 'dyn': 'PACKAGES_DYNAMIC = "a.@"',
}


def query(S, st, p):
    for it in st.GetItemsFor(filename=p):
        it.get_items()
        it.GetAttributes()
        repr(it)
        it.IsFromAppend()
        if it.CLASSIFIER == 'Variable':
            st.ExpandTerm(p, it.VarValueStripped, objref=it)
            it.GetMachineEntry()
            it.GetDistroEntry()
            it.GetClassOverride()
            it.get_items(versioned=True)
        if it.CLASSIFIER == 'Function':
            it.GetMachineEntry()
            it.GetDistroEntry()
        if it.CLASSIFIER == 'FunctionExports':
            it.get_items_unaliased()
    st.GetScrComponents('git://a;b=c')
    st.IsImage(p)
    st.IsPackageGroup(p)
    st.GetValidPackageNames(p)
    st.GetValidNamedResources(p)
    st.IsDynamicPackage(p, 'ab')
    st.GetLinksForFile(p)
    st.GetRecipes()
    st.GetLoneAppends()
    d = st.ExpandVar(p)
    S.check('PN' in d, 'the expansion is complete')
    S.cover('queried')
    return sorted(d)


def parse(S, kind, n, limit, most, q):
    """files are parsed completely"""
    lean(S)
    head, tail = '# head\n', 'Z = "1"\n'
    st1 = K[kind].replace('@', S.str('s', n, 'ab'))
    text = head + st1 + '\n' + tail
    S.write('a_1.0.bb', text)
    p = S.path('a_1.0.bb')
    st = stash(S)
    S.timeouts('t', limit, most)
    items = st.AddFile(p)
    st.Finalize()
    got = ''
    for x in items:
        got = got + x.RealRaw
    S.check(got == text, 'no text is lost')
    S.check([x.InFileLine for x in items] == sorted([x.InFileLine for x in items]) and all([0 < x.InFileLine <= text.count('\n') for x in items]), 'lines')
    for x in items:
        S.check(x.Origin == p, 'origin')
    S.cover('parsed')
    if q:
        return [x.CLASSIFIER for x in items], query(S, st, p)
    return [x.CLASSIFIER for x in items]


def queries(S, kind, n, limit, most):
    """a timeout while querying"""
    lean(S)
    S.write('a_1.0.bb', 'B = "c"\n' + K[kind].replace('@', S.str('s', n, 'ab')) + '\n')
    p = S.path('a_1.0.bb')
    st = stash(S)
    items = st.AddFile(p)
    st.Finalize()
    before = [(x.Line, x.RealRaw, x.CLASSIFIER) for x in st.GetItemsFor()]
    S.timeouts('t', limit, most)
    r = query(S, st, p)
    S.check([(x.Line, x.RealRaw, x.CLASSIFIER) for x in st.GetItemsFor()] == before, 'the items are untouched')
    S.cover('untouched')
    return r


def once(S, kind):
    """a timeout of one evaluation leaves the other lines alone"""
    head, tail = 'Y = "1"\n', 'Z = "1"\n'
    text = head + K[kind].replace('@', 'a') + '\n' + tail
    S.write('a_1.0.bb', text)
    p = S.path('a_1.0.bb')
    ref = [(x.CLASSIFIER, x.InFileLine, x.RealRaw) for x in stash(S).AddFile(p)]
    st = stash(S)
    S.timeouts('t', 200, 1)
    items = [(x.CLASSIFIER, x.InFileLine, x.RealRaw) for x in st.AddFile(p)]
    lost = [x for x in ref if x not in items]
    if lost:
        S.cover('timeout')
    # the end of a block may be missed, which affects the following statement as well
    S.check(len(lost) <= 2, 'at most the statement and its neighbour are affected')
    S.check(''.join([x[2] for x in items]) == text, 'no text is lost')
    return items


def units(tier):
    q = tier == 'quick'
    out = []
    for op in DOC:
        out += [('wrapper', [op, n, False]) for n in range(4)]
    for k in K:
        out += [('parse', [k, 0, 400, 1, True]), ('once', [k])]
        out += [('parse', [k, 1, 14, 2, False]), ('queries', [k, 0, 12, 2])]
        if not q:
            out += [('parse', [k, 0, 160, 2, False]), ('parse', [k, 0, 24, 3, True]), ('queries', [k, 1, 100, 2])]
    return out
