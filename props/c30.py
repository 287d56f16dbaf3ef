"""C30: GetFiles returns exactly the matching files next to the recipe"""
from props.common import *

COVERS = ['match', 'nomatch', 'dir', 'magic', 'include', 'append', 'nosrcuri', 'other', 'absent', 'sorted', 'linked', 'slash']
BOUNDS = {
    'quick': 'recipes, includes and bbappends in 3 directories, each with or without SRC_URI, and 5 files in a chain of includes of a recipe and a bbappend, each with or without; files of up to 2 arbitrary characters in subdirectories of up to 2 arbitrary characters (of 6), present or absent, files or directories, directly beside or '
             'two levels below; recipe directories of up to 3 arbitrary characters (of 8, including *, ? and brackets); 11 patterns with stars, question marks and directories, and patterns of up to 2 arbitrary characters (of 4)',
    'thorough': 'names and patterns with one character more',
}
ASSUMPTIONS = ['names of files and directories do not start with a dot', 'the file system does not change']


def matches(name, pat):
    """wildcards * and ? (no sets)"""
    if len(pat) == 0:
        return len(name) == 0
    if pat[0] == '*':
        return any([matches(name[i:], pat[1:]) for i in range(len(name) + 1)])
    return len(name) > 0 and (pat[0] == '?' or pat[0] == name[0]) and matches(name[1:], pat[1:])


def one(S, n, pat):
    """an arbitrary file and an arbitrary pattern"""
    nm = S.str('n', n, 'ab.-_1')
    S.assume(nm[0] != '.')
    if pat.__class__ is int:
        pat = S.str('p', pat, 'ab*?')
    sub = S.str('d', 1, 'ab-_')
    here = S.bool('here')
    S.write('r/' + sub + '/' + nm, '', here)
    S.write('r/' + nm + 'x', '')
    S.write('r/q/deep/' + nm, '')
    S.write('q/' + nm, '')
    S.write('r/a_1.bb', 'SRC_URI = "x"\n')
    st = stash(S)
    st.AddFile(S.path('r/a_1.bb'))
    got = st.GetFiles(S.path('r/a_1.bb'), pat)
    if pat.endswith('/'):
        # a directory
        S.check(got == ([S.path('r/q/deep/')] if matches('deep', pat[:-1]) else []), 'nothing but the directory')
        S.cover('slash')
        return got
    if pat == 'deep/*':
        S.check(got == [S.path('r/q/deep/' + nm)], 'the file of the subdirectory')
        return got
    if here and matches(nm, pat):
        S.cover('match')
        S.check(any([x == S.path('r/' + sub + '/' + nm) for x in got]), 'the matching file is returned')
        got = [x for x in got if x != S.path('r/' + sub + '/' + nm)]
    elif not here:
        S.cover('absent')
    else:
        S.cover('nomatch')
    if matches('deep', pat):
        S.check(got == [S.path('r/q/deep')], 'nothing but the directory')
        S.cover('dir')
    else:
        S.check(got == [], 'nothing else is returned')
    return st.GetFiles(S.path('r/a_1.bb'), pat)


def where(S, n, fin):
    """directories of any name, all files that contribute"""
    d = S.str('d', n, 'aB[]*?!-')
    for o in ('a', 'b', 'B', '!'):
        S.assume(d != o)
        S.write(o + '/s/f.patch', '')
    if any([x in '[]*?' for x in d]):
        S.cover('magic')
    src = [S.bool('src%d' % i) for i in range(3)]
    text = ['SRC_URI = "x"\n' if x else 'B = "x"\n' for x in src]
    S.write(d + '/conf/layer.conf', '')
    S.write(d + '/a_1.bb', 'require inc/i.inc\n' + text[0])
    S.write(d + '/inc/i.inc', text[1])
    S.write(d + '/ap/a_1.bbappend', text[2])
    S.write(d + '/s/f.patch', '')
    S.write(d + '/inc/t/g.patch', '')
    S.write(d + '/ap/u/h.patch', '')
    S.write(d + '/x/y/n.patch', '')
    st = stash(S)
    rec = S.path(d + '/a_1.bb')
    st.AddFile(rec)
    st.AddFile(S.path(d + '/ap/a_1.bbappend'))
    if fin:
        st.Finalize()
    got = st.GetFiles(rec, '*.patch')
    S.check(got == sorted(got) and len(set(got)) == len(got), 'each file once, sorted')
    exp = []
    if any(src):
        S.cover('sorted')
    else:
        S.cover('nosrcuri')
    own, inc, app = S.path(d + '/s/f.patch'), S.path(d + '/inc/t/g.patch'), S.path(d + '/ap/u/h.patch')
    if src[0]:
        # the files the recipe is linked against, too
        exp = [own, inc, app]
    else:
        if src[1]:
            S.cover('include')
            exp.append(inc)
        if src[2]:
            S.cover('append')
            exp.append(app)
    if fin and not src[0]:
        # links are known in either direction
        S.check(all([any([x == y for y in got]) for x in exp]) and all([any([x == y for y in (own, inc, app)]) for x in got]), 'the files of these directories')
        S.check(any(src) or got == [], 'no file without SRC_URI')
    else:
        S.check(len(got) == len(exp) and all([any([x == y for y in got]) for x in exp]), 'the files of these directories and no other')
    S.check(st.GetFiles(rec, '*.diff') == [], 'no file of another name')
    S.cover('other')
    return got


def chain(S, fin, k):
    """files linked to the files that set SRC_URI, in any arrangement"""
    tree = ['r/a_1.bb', 'i/i.inc', 'j/j.inc', 'p/a_1.bbappend', 'k/k.inc']
    inc = ['require ../i/i.inc\n', 'require ../j/j.inc\n', '', 'require ../k/k.inc\n', '']
    for i, f in enumerate(tree):
        S.write(f, ('SRC_URI += "x"\n' if S.bool('src%d' % i) else 'B = "x"\n') + inc[i])
        S.write(f.split('/')[0] + '/s/f.patch', '', S.bool('here%d' % i) if i >= k else True)
    st = stash(S)
    rec = S.path(tree[0])
    st.AddFile(rec)
    st.AddFile(S.path(tree[3]))
    if fin:
        st.Finalize()
    # the queries these are made of are properties of their own (C12, C14)
    exp = []
    for i, f in enumerate(tree):
        mine = [x for x in st.GetItemsFor(filename=rec, classifier='Variable') if x.Origin == S.path(f)]
        if not S.bool('src%d' % i) or not mine:
            continue
        exp.append(i)
        for j, g in enumerate(tree):
            if any([x.Origin == S.path(g) for x in st.GetItemsFor(filename=S.path(f))]):
                exp.append(j)
    exp = [i for i in range(len(tree)) if i in exp and (i < k or S.bool('here%d' % i))]
    got = st.GetFiles(rec, '*.patch')
    S.check(got == sorted([S.path(tree[i].split('/')[0] + '/s/f.patch') for i in exp]), 'the files beside all linked files')
    if 4 in exp:
        S.cover('linked')
    # the file that sets it counts in any case
    for i in range(2):
        if S.bool('src%d' % i) and (i < k or S.bool('here%d' % i)):
            S.check(any([x == S.path(tree[i].split('/')[0] + '/s/f.patch') for x in got]), 'the files beside the setting')
    return got


def units(tier):
    q = tier == 'quick'
    m = 2 if q else 3
    out = [('one', [n, p]) for n in range(1, m + 1) for p in ['*', 'a*', '*a', '?', 'a?', '*.b', 'b', '*/', 'deep/', 'a/', 'deep/*'] + list(range(1, m + 1))]
    out += [('where', [n, f]) for n in range(1, (3 if q else 4) + 1) for f in (0, 1)]
    out += [('chain', [f, k]) for f in (0, 1) for k in ((3, 5) if q else (0, 3, 5))]
    return out
