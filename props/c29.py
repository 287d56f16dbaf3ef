"""C29: distros and machines of the layer of a parsed file are known"""
from props.common import *

COVERS = ['conf', 'other', 'nolayer', 'nested', 'outer', 'machine', 'distro', 'override', 'magic', 'twice', 'dotted', 'both']
BOUNDS = {
    'quick': 'names of up to 2 configuration files of up to 3 arbitrary characters (of 8) with 5 extensions, in conf/distro, conf/machine or 3 similar directories, names with an extension in the middle, the same name for both, present or absent; layers nested in each other up to 2 levels, each with or without '
             'layer configuration; layer directories of up to 3 arbitrary characters (of 8, including *, ? and brackets); the file in the layer root or below, a recipe, an include or a bbappend; up to 2 files of one or two layers',
    'thorough': 'names of up to 5 and directories of up to 4 arbitrary characters',
}
ASSUMPTIONS = ['names do not start with a dot', 'names known before are kept', 'how often a name is listed does not matter']

KINDS = ['distro', 'machine', 'distros', 'machine/include', '../distro']
EXT = ['.conf', '.inc', '.confx', 'conf', '.conf.bak']


def known(S):
    c = S.mod('oelint_parser.constants').CONSTANTS
    return {'distro': list(c.DistrosKnown), 'machine': list(c.MachinesKnown)}


def news(before, after):
    return [x for x in after if not any([x == y for y in before])]


def same(a, b):
    return all([any([x == y for y in b]) for x in a]) and all([any([x == y for y in a]) for x in b])


def fresh(S):
    c = S.mod('oelint_parser.constants').CONSTANTS
    c.OverrideConstants({'replacements': {'distros': ['known'], 'machines': ['known']}})


def one(S, n, kind, ext, where):
    """configuration files of any name"""
    fresh(S)
    nm = S.str('n', n, 'aX_-.*[1')
    S.assume(nm[0] != '.')
    S.write('l/conf/layer.conf', '')
    S.write('l/conf/' + kind + '/' + nm + ext, '')
    S.write('l/conf/machine/k.conf', '')
    f = 'l/' + where
    S.write(f, 'A_' + 'k = "1"\n')
    st = stash(S)
    before = known(S)
    items = st.AddFile(S.path(f))
    after = known(S)
    match = ext == '.conf' or (ext == 'conf' and nm[-1:] == '.')
    stem = nm if ext == '.conf' else nm[:-1]
    S.assume(not (stem == '' or stem == 'known' or stem == 'k'))
    exp = {'distro': [], 'machine': ['k']}
    if kind in exp and match:
        S.cover('conf')
        S.cover(kind)
        # a name of dots only has no extension
        S.assume(not all([x == '.' for x in stem]))
        exp[kind].append(stem)
    else:
        S.cover('other')
    for k in exp:
        S.check(same(news(before[k], after[k]), exp[k]), 'known ' + k)
        S.check(same(news(after[k], before[k]), []), 'nothing is forgotten')
    S.check(items[0].GetMachineEntry() == 'k', 'override of the machine')
    return [sorted(news(before[k], after[k])) for k in ('distro', 'machine')]


def dotted(S, n, kind, k):
    """names with an extension in the middle"""
    fresh(S)
    S.write('l/conf/layer.conf', '')
    nm = [S.str('a', 1, 'aX_-') + '.conf' + S.str('b', n, 'a.-_'), 'conf' + S.str('b', n, 'a.-_') + 'b', S.str('a', n, 'a-') + '.' + S.str('b', 1, 'a1') + '.conf', 'a.inc' + S.str('b', n, 'a.-_')][k]
    S.assume(nm[-1] != '.')
    S.write('l/conf/' + kind + '/' + nm + '.conf', '')
    S.write('l/r/a_1.bb', 'A_' + nm + ' = "1"\n')
    st = stash(S)
    st.AddFile(S.path('l/r/a_1.bb'))
    got = known(S)
    for x in ('distro', 'machine'):
        S.check(same(got[x], ['known'] + ([nm] if x == kind else [])), 'known ' + x)
    S.cover('dotted')
    return [sorted(set(got[x])) for x in ('distro', 'machine')]


def both(S, n, m):
    """a distro and a machine of any names, maybe the same"""
    fresh(S)
    d, a, b = S.str('d', n, 'aX-'), S.str('a', m, 'aX-'), S.str('b', 1, 'aX-')
    S.write('l/conf/layer.conf', '')
    S.write('l/conf/distro/' + d + '.conf', '', S.bool('hd'))
    S.write('l/conf/machine/' + a + '.conf', '')
    S.write('l/conf/machine/' + b + '.conf', '')
    S.write('l/r/a_1.bb', 'A = "1"\n')
    st = stash(S)
    st.AddFile(S.path('l/r/a_1.bb'))
    k = known(S)
    S.check(same(k['distro'], ['known'] + ([d] if S.bool('hd') else [])), 'known distros')
    S.check(same(k['machine'], ['known', a, b]), 'known machines')
    S.cover('both')
    return [sorted(set(k['distro'])), sorted(set(k['machine']))]


def directory(S, n, where):
    """layer directories of any name"""
    fresh(S)
    d = S.str('d', n, 'aB[]*?!-')
    S.write(d + '/conf/layer.conf', '')
    S.write(d + '/conf/distro/dd.conf', '')
    S.write(d + '/conf/machine/mm.conf', '')
    # similar names are other layers
    for o in ('a', 'b', 'aa', '!'):
        S.assume(d != o)
        S.write(o + '/conf/layer.conf', '')
        S.write(o + '/conf/distro/' + 'other.conf', '')
        S.write(o + '/conf/machine/' + 'other.conf', '')
    f = d + '/' + where
    S.write(f, 'A_dd = "1"\n')
    st = stash(S)
    items = st.AddFile(S.path(f))
    k = known(S)
    if any([x in '[]*?' for x in d]):
        S.cover('magic')
    S.check(same(k['distro'], ['known', 'dd']) and same(k['machine'], ['known', 'mm']), 'configurations of the layer only')
    S.check(items[0].GetDistroEntry() == 'dd', 'override of the distro')
    S.cover('override')
    return [sorted(set(k['distro'])), sorted(set(k['machine']))]


def nested(S, where, two):
    """the nearest enclosing layer counts"""
    fresh(S)
    conf = []
    for i, d in enumerate(('', 'o/', 'o/i/')):
        on = S.bool('conf%d' % i) if i else False
        conf.append(on)
        S.write(d + 'conf/layer.conf', '', on)
        S.write(d + 'conf/distro/d%d.conf' % i, '', S.bool('d%d' % i))
        S.write(d + 'conf/machine/m%d.conf' % i, '', S.bool('m%d' % i))
    S.write('o/i/r/a_1.bb', 'A = "1"\n')
    S.write('o/r/a_1.bb', 'A = "1"\n')
    S.write('o/i/a_1.bbappend', 'A = "1"\n')
    S.write('r/a_1.bb', 'A = "1"\n')
    st = stash(S)
    exp = {'distro': ['known'], 'machine': ['known']}
    files = [where] + ([S.choice('second', ['o/i/r/a_1.bb', 'o/r/a_1.bb', 'r/a_1.bb'])] if two else [])
    for f in files:
        st.AddFile(S.path(f))
        level = 2 if f.startswith('o/i/') else 1 if f.startswith('o/') else 0
        while level >= 0 and not conf[level]:
            level -= 1
        if level < 0:
            S.cover('nolayer')
        else:
            S.cover('nested' if level == 2 else 'outer')
            if S.bool('d%d' % level):
                exp['distro'].append('d%d' % level)
            if S.bool('m%d' % level):
                exp['machine'].append('m%d' % level)
        k = known(S)
        for x in exp:
            S.check(same(k[x], exp[x]), 'known names')
    if two:
        S.cover('twice')
    return [sorted(set(k['distro'])), sorted(set(k['machine']))]


def units(tier):
    q = tier == 'quick'
    m = 3 if q else 5
    out = [('one', [n, k, e, 'r/a_1.bb']) for n in range(1, m + 1) for k in KINDS for e in EXT]
    out += [('one', [2, k, '.conf', w]) for k in KINDS for w in ('a_1.bb', 'x/y/a.inc', 'conf/machine/a.bbappend')]
    out += [('dotted', [n, k, i]) for n in ((1, 2) if q else (1, 2, 3)) for k in ('distro', 'machine') for i in range(4)]
    out += [('both', [n, x]) for n in (1, 2) for x in (1, 2)]
    out += [('directory', [n, w]) for n in range(1, (3 if q else 4) + 1) for w in ('a_1.bb', 'r/x/a.bb')]
    out += [('nested', [w, t]) for w in ('o/i/r/a_1.bb', 'o/r/a_1.bb', 'o/i/a_1.bbappend', 'r/a_1.bb') for t in (0, 1)]
    return out
