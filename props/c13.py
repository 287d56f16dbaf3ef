"""C13: query results never go stale"""
from props.common import *

COVERS = ['add', 'finalize', 'append', 'remove', 'bbappend', 'query']
BOUNDS = {
    'quick': 'all sequences of up to 3 changes out of 10 (adding one of 6 files, finalizing, appending one of 2 items, removing the first item of a query), removing all items after or before any other change, with all queries after any subset of the changes; '
             'file contents with arbitrary letters in the names and values',
    'thorough': 'all sequences of up to 4 changes',
}
ASSUMPTIONS = ['the file system does not change', 'items are not modified by the caller']

FILES = ['a_1.bb', 'a_%.bbappend', 'a_1.bbappend', 'b_1.bb', 'c.bbclass', 'l.conf']
CHANGES = ['add:' + f for f in FILES] + ['fin', 'app:var', 'app:inh', 'rem']


def show(p, items):
    return [[x.CLASSIFIER, x.Raw, x.Origin, x.Line, sorted(x.IncludedFrom)] for x in items]


def queries(S, st):
    out = []
    for f in ('a_1.bb', 'b_1.bb'):
        p = S.path(f)
        out.append(show(p, st.GetItemsFor(filename=p)))
        out.append(show(p, st.GetItemsFor(filename=p, classifier='Variable')))
        out.append(show(p, st.GetItemsFor(filename=p, classifier='Variable', attribute='VarName', attributeValue=['PACKAGES', 'V'])))
        out.append(sorted(st.GetLinksForFile(p)))
        out.append(st.IsImage(p))
        out.append(st.IsPackageGroup(p))
        out.append(sorted(st.GetValidPackageNames(p)))
        out.append(sorted(st.GetValidPackageNames(p, strippn=True)))
        out.append(sorted(st.GetValidNamedResources(p)))
        out.append(sorted(st.GetPackagesDynamic(p)))
        out.append(st.IsDynamicPackage(p, 'dyn-x'))
        out.append(sorted(st.GetFiles(p, '*.patch')))
        out.append(st.ExpandTerm(p, '${V}-${W}-${PN}'))
        ev = st.ExpandVar(filename=p)
        out.append([ev.get(x) for x in ('V', 'W', 'PACKAGES')])
    out.append(show('', st.GetItemsFor()))
    out.append(show('', st.GetItemsFor(classifier=['Inherit', 'Include'])))
    out.append(show('', st.GetItemsFor(attribute='VarName', attributeValue='V')))
    out.append(st.GetRecipes())
    out.append(sorted(st.GetLoneAppends()))
    out.append(sorted(st.GetConfFiles()))
    out.append(sorted(st.GetBBClasses()))
    return out


def apply(S, st, c, m, n):
    if c.startswith('add:'):
        st.AddFile(S.path(c[4:]))
    elif c == 'fin':
        st.Finalize()
    elif c == 'app:var':
        st.Append(m.Variable('V', '"x' + str(n) + '"', ' = ', origin=S.path('a_1.bb'), line=100 + n, infileline=1, rawtext='V' + str(n), realraw='', inline_blocks=[]))
    elif c == 'app:inh':
        st.Append([m.Inherit('inherit', 'core-image packagegroup', origin=S.path('b_1.bb'), line=50 + n, infileline=1, rawtext='inherit' + str(n), realraw='', inline_blocks=[])])
    elif c == 'rem':
        for x in st.GetItemsFor()[:1]:
            st.Remove(x)
    elif c == 'rem:all':
        st.Remove(st.GetItemsFor())


def hist(S, c0, c1, k, masks):
    lean(S)
    a, b = S.str('a', 1, 'xV'), S.str('b', 1, 'xV')
    S.write('a_1.bb', 'PACKAGES = "${PN}-' + a + ' ${V}"\ninherit c\nV = "${W}"\n')
    S.write('a_%.bbappend', 'V += "' + b + '"\nW = "y"\nPACKAGES_DYNAMIC = "dyn-*"\nIMAGE_INSTALL = "q"\n')
    S.write('a_1.bbappend', 'V = "z"\nSRC_URI = "http://x/y;name=${PN}n"\n')
    S.write('b_1.bb', 'V = "b"\nrequire b.inc\nunset W\n')
    S.write('b.inc', 'W = "i"\nSRC_URI = "file://p.patch"\nrequire sub/deep.inc\n')
    # seen by the recipe after finalizing only
    S.write('sub/deep.inc', 'PACKAGES = "deep"\nPACKAGES_DYNAMIC = "dyn-x"\nSRC_URI += "git://x;name=dp"\ninherit packagegroup image\n')
    S.write('sub/files/q.patch', '')
    S.write('c.bbclass', 'W = "c"\nPACKAGE_BEFORE_PN = "${PN}-q"\n')
    S.write('classes/c.bbclass', 'W = "k"\n')
    S.write('l.conf', 'V = "l"\n')
    S.write('conf/layer.conf', '')
    S.write('files/p.patch', '')
    m = S.mod('oelint_parser.cls_item')
    seq = [c0, c1][:k]
    for i in range(2, k):
        seq.append(S.choice('c%d' % i, CHANGES))
    mask = S.choice('mask', masks)
    for c in seq:
        S.cover({'f': 'finalize', 'r': 'remove'}.get(c[0], 'add' if c[:3] == 'add' else 'append'))
        if c.endswith('bbappend'):
            S.cover('bbappend')
    one = stash(S)
    if mask[0] == '1':
        queries(S, one)
    for i, c in enumerate(seq):
        apply(S, one, c, m, i)
        if mask[i + 1] == '1':
            queries(S, one)
            S.cover('query')
    got = queries(S, one)
    fp = one.FingerPrint
    # the caches are shared between stashes, so this one has to come second
    two = stash(S)
    for i, c in enumerate(seq):
        apply(S, two, c, m, i)
    exp = queries(S, two)
    for i in range(len(exp)):
        S.check(got[i] == exp[i], 'query %d is not stale' % i)
    S.check(fp == two.FingerPrint, 'fingerprint')
    again = queries(S, two)
    for i in range(len(exp)):
        S.check(again[i] == exp[i], 'query %d gives the same result again' % i)
    return [got[2], got[10], got[-1], got[-4]]


def units(tier):
    q = tier == 'quick'
    out = []
    for a in CHANGES:
        for b in CHANGES:
            out.append(('hist', [a, b, 2, ['110', '010', '100']]))
            out.append(('hist', [a, b, 3, ['1110', '0010']]))
            if a != 'fin' and b == 'add:a_1.bb':
                # nothing is left
                out.append(('hist', [a, 'rem:all', 2, ['110', '010']]))
                out.append(('hist', [a, 'rem:all', 3, ['0010', '0110']]))
                out.append(('hist', ['rem:all', a, 2, ['010', '110']]))
            if not q:
                out.append(('hist', [a, b, 3, ['0110', '0100', '1000', '1100', '1010']]))
                out.append(('hist', [a, b, 4, ['11110', '00010', '00100']]))
    return out
