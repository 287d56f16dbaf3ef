"""not a property: Python idioms a refactoring may use, symbolic against real (validation of the encoding)"""
import bisect
import collections
import contextlib
import copy
import dataclasses
import enum
import fnmatch
import functools
import itertools
import operator
import os
import pathlib
import re
import string
import textwrap

import regex

from props.common import *

COVERS = []
BOUNDS = {'quick': 'texts of 3 characters', 'thorough': 'texts of 4 characters'}
ASSUMPTIONS = []
AL = 'a{_: "'
F = {}


def idiom(f):
    F[f.__name__] = f
    return f


@idiom
def counter(a, b):
    c = collections.Counter(a)
    return [c['a'], c['{'] - c['_'], sorted(c.items())]


@idiom
def defaultdict_index(a, b):
    d = collections.defaultdict(list)
    for i, x in enumerate(a):
        d[x].append(i)
    return [list(d.items()), d.get('a'), 'a' in d]


@idiom
def deque_rot(a, b):
    d = collections.deque(a)
    d.appendleft(b)
    d.rotate(1)
    x = d.popleft()
    return [x, list(d), d.pop(), len(d)]


@idiom
def ordered(a, b):
    d = collections.OrderedDict.fromkeys(a)
    d.move_to_end(a[0])
    return list(d)


@idiom
def groupby(a, b):
    return [(k, len(list(g))) for k, g in itertools.groupby(a)] + [(k, ''.join(g)) for k, g in itertools.groupby(a, key=lambda c: c in 'a_')]


@idiom
def takedrop(a, b):
    return [list(itertools.takewhile(lambda c: c != '{', a)), list(itertools.dropwhile(str.isspace, a)), ''.join(itertools.filterfalse(lambda x: x == 'a', a))]


@idiom
def chains(a, b):
    return [list(itertools.chain(a, b)), list(itertools.chain.from_iterable([a, b])), list(itertools.islice(a, 1, 3)), list(itertools.zip_longest(a, b[:1])), list(itertools.accumulate(a)),
            list(itertools.accumulate((1 if x == '{' else -1 for x in a), operator.add)), list(itertools.pairwise(a)), list(itertools.product(a[:1], b[:1])), list(itertools.compress(a, [x == 'a' for x in a])), list(itertools.starmap(lambda x, y: x + y, zip(a, b)))]


@idiom
def reduces(a, b):
    return [functools.reduce(lambda x, y: y + x, a, ''), functools.reduce(lambda n, c: n + (c == 'a'), a, 0)]


@idiom
def partials(a, b):
    f = functools.partial(str.startswith, a)
    g = functools.partial(operator.contains, a)
    return [f('a'), g('{'), functools.partial(lambda x, y: x + y, b)(a)]


@idiom
def operators(a, b):
    return [operator.itemgetter(0)(a), operator.itemgetter(0, 1)(a), operator.attrgetter('__class__')(1) is int, operator.methodcaller('strip')(a), operator.eq(a, b), operator.add(a, b), operator.contains(a, 'a'), operator.not_(a == b), operator.lt(a, b), operator.getitem(a, 1), operator.mod('%s', a)]


@idiom
def match_str(a, b):
    match a:
        case 'aaa' | 'a_a':
            return 1
        case x if x.startswith('{'):
            return 2
        case str():
            return 3
    return 4


@idiom
def match_seq(a, b):
    match a.split('_'):
        case [x]:
            return ['one', x]
        case [x, y]:
            return ['two', x, y]
        case [x, *rest]:
            return ['more', x, rest]


@idiom
def match_tuple(a, b):
    match (a[0], b[0]):
        case ('a', 'a'):
            return 1
        case ('a', y) if y != '_':
            return [2, y]
        case (x, '{' | '_'):
            return [3, x]
        case _:
            return 4


@idiom
def match_dict(a, b):
    match {'k': a, 'l': b}:
        case {'k': 'aaa'}:
            return 1
        case {'k': x, 'l': y} if x == y:
            return 2
        case {'l': z}:
            return z


@idiom
def walrus(a, b):
    out = []
    i = 0
    while (j := a.find('_', i)) >= 0:
        out.append(j)
        i = j + 1
    if (n := len(out)) > 1:
        out.append(n)
    return out


@idiom
def partitions(a, b):
    h, s, t = a.partition('_')
    h2, s2, t2 = a.rpartition('_')
    return [h, s, t, h2, s2, t2, bool(s)]


@idiom
def starred(a, b):
    h, *t = a.split('_')
    *i, l = a.split(':')
    x, y, z = a
    return [h, t, i, l, x, y, z, [*a, *b], {**{'x': a}, 'y': b}, (*a,)]


@idiom
def comps(a, b):
    return [{x: i for i, x in enumerate(a)}, sorted({x for x in a}), [y for x in (a, b) for y in x if y != 'a'], dict(zip(a, b)), {k: v for k, v in zip(a, b) if k != v}]


@idiom
def sorting(a, b):
    return [sorted(a), sorted(a, reverse=True), sorted([a, b], key=len), max(a), min(a), max([a, b], key=lambda x: x.count('a')), sorted(a, key=lambda c: (c != 'a', c)), sorted([(a, 1), (b, 0)]), list(reversed(a)), a[::-1], sorted(enumerate(a), key=operator.itemgetter(1))]


@idiom
def joins(a, b):
    return ['_'.join([a, b]), a.join(b), ''.join(x.upper() for x in a), ''.join(map(str.lower, a)), '{}-{}'.format(a, b), '{x}{y!r:>4}'.format(x=a, y=1), '%s:%s' % (a, b), f'{a}{b!s}', f'{len(a):03d}', '%(x)s' % {'x': a}, f'{a:>6}']


@idiom
def strfuncs(a, b):
    return [a.strip(), a.lstrip('_'), a.rstrip('" '), a.removeprefix('a'), a.removesuffix('a'), a.replace('a', b), a.replace('_', '', 1), a.count('_'), a.find('a'), a.rfind('a'), a.split(), a.split('_', 1), a.rsplit('_', 1), a.splitlines(), a.expandtabs(),
            a.isalpha(), a.isalnum(), a.isdigit(), a.isspace(), a.isidentifier(), a.islower(), a.isupper(), a.upper(), a.title(), a.capitalize(), a.swapcase(), a.center(7), a.ljust(5, '.'), a.rjust(5), a.zfill(5), a.startswith(('a', '_')), a.endswith(('a', '_')), a.casefold(), a * 2, a[1:], a[-1], a[-2:], a[::2], len(a), a in b, b not in a, a == b, a != b, a < b, bool(a), not a]


@idiom
def find_errors(a, b):
    out = []
    try:
        out.append(a.index('_'))
    except ValueError:
        out.append(-7)
    try:
        out.append(int(a))
    except ValueError as e:
        out.append('v')
    try:
        x, y = a.split('_')
        out += [x, y]
    except ValueError:
        out.append('u')
    try:
        out.append({'a': 1}[a[0]])
    except KeyError:
        out.append('k')
    try:
        out.append([1, 2][len(a.split('_')[0])])
    except IndexError:
        out.append('i')
    return out


@idiom
def translates(a, b):
    return [a.translate(str.maketrans('a_', 'b-')), a.translate({ord('a'): None}), a.translate(str.maketrans('', '', '{"')), a.translate(str.maketrans({'a': 'xy'}))]


@idiom
def chars(a, b):
    return [ord(a[0]), chr(ord('b')), [ord(x) for x in a], a[0] in string.ascii_letters, a[0] in {'a', '_'}, a[0] in ('a', '_'), a[0] in frozenset('ab'), 'a' <= a[0] <= 'z', a[0] in string.whitespace]


@idiom
def bools(a, b):
    d = {True: 'y', False: 'n'}
    return [d[a == b], d[a.startswith('a')], ('n', 'y')[a == b], sum(x == 'a' for x in a), sum(1 for x in a if x == 'a'), (a[0] == 'a') + (a[1] == 'a'), (a[0] == 'a') - (a[1] == 'a'), int(a == b), (a == b) is True, (a == b) == True, any(x == 'a' for x in a), all(x == 'a' for x in a), bool(a == b) ^ True, (a == b) & (a != ''), (a == b) | (a == 'aaa'), not (a == b),  # noqa: E712
            3 * (a == b), -(a == b), (a == b) < 1, [x for x in (a == b, False, True) if x], (a == b, a) > (False, b), isinstance(a == b, bool), 'x' * (a == b)]


@idiom
def ints(a, b):
    n = a.count('a')
    m = a.find('_')
    return [n + m, n - m, n * 2, n // 2, n % 2, -n, abs(m), max(n, m), min(n, m, 1), n > 1, n == m, range(n), list(range(n)), 'x' * n, a[n:], a[:m], a[m], [0, 1, 2, 3][n], divmod(n, 2), n & 1, n << 1, f'{n}', str(n), n or m, n and m, n ** 2, n / 2, bool(n), (n > 0) - (m > 0), {0: 'z', 1: 'o'}.get(n), n in (0, 1), n in range(2), isinstance(n, int), int(n), -1 < n < 2, sum([n, m]), round(n / 2)]


@idiom
def sets(a, b):
    x, y = set(a), set(b)
    return [sorted(x & y), sorted(x | y), sorted(x - y), sorted(x ^ y), x == y, x <= y, x.isdisjoint(y), x.issubset(y), len(x), 'a' in x, sorted(x.union(y, 'q')), sorted(x.intersection('a_')), bool(x & y), sorted(frozenset(a)), sorted(x.difference(b)), x < y, sorted(x, key=lambda v: -ord(v))]


@idiom
def setops(a, b):
    x = set()
    for c in a:
        if c in x:
            continue
        x.add(c)
    x.discard('a')
    x.update(b)
    x -= {'_'}
    x |= {'z'}
    y = x.copy()
    y.clear()
    z = {a, b}
    return [sorted(x), len(y), len(z), sorted(z)]


@idiom
def dicts(a, b):
    d = {'a': 1, '_': 2}
    d2 = {a: 1}
    d2[b] = 2
    d2.setdefault(a, 3)
    d3 = dict(d2)
    d3.pop(a, None)
    return [d.get(a[0]), d.get(a[0], 0), a[0] in d, d2, len(d2), list(d2), list(d2.values()), d3, d | {a[0]: 9}, dict.fromkeys(a, 0), {**d, **{a[0]: 5}}, [k for k, v in d.items() if k == a[0]], next((v for k, v in d.items() if a.startswith(k)), None), d.keys() & set(a), sorted(d.items(), key=lambda x: x[0] == a[0]), d2 == {b: 2}]


@idiom
def dict_dispatch(a, b):
    table = {'a': lambda: 1, '_': lambda: 2}
    f = table.get(a[0])
    return f() if f else [table[x]() for x in a if x in table]


@idiom
def dict_merge(a, b):
    d = {'x': {'y': [a]}}
    e = copy.deepcopy(d)
    e['x']['y'].append(b)
    d.update(x2=a)
    d |= {'z': b}
    del d['x']
    return [d, e, copy.copy(e) == e, {'k': a}.items() <= {'k': a, 'l': b}.items()]


@idiom
def lists(a, b):
    x = list(a)
    x.insert(1, b)
    x.extend(b)
    x.append('q')
    x[0:1] = [b, b]
    del x[1]
    y = x[:]
    y.sort()
    y.reverse()
    z = [a, b] * 2
    z.remove(a)
    x[-1:] = []
    out = [x, y, z, x.count('a'), [a, b].index(b), b in [a], [a] == [b], [a, b] + [a], x.pop(), x.pop(0), (a, b) == (b, a), tuple(x).count('a'), [a] < [b]]
    try:
        out.append(x.index('{'))
    except ValueError:
        out.append('none')
    return out


@idiom
def slices_assign(a, b):
    x = list(a)
    x[:] = [c for c in x if c != 'a']
    y = x[slice(0, 2)]
    return [x, y, x[-1:] or None, a[slice(1, None)]]


@idiom
def iters(a, b):
    it = iter(a)
    first = next(it)
    rest = ''.join(it)
    e = next(it, None)
    it2 = iter([a, b].__iter__().__next__, b)
    return [first, rest, e, list(enumerate(a, start=1)), list(zip(a, b, strict=False)), list(map(lambda x, y: x == y, a, b)), list(filter(None, a.split('_'))), list(filter(str.strip, a.split('_')))]


@idiom
def generators(a, b):
    def words(t):
        w = ''
        for c in t:
            if c == '_':
                if w:
                    yield w
                w = ''
            else:
                w += c
        if w:
            yield w

    def both():
        n = yield from counts()
        yield n

    def counts():
        yield a
        return len(list(words(b)))
    g = words(a)
    return [next(g, 'none'), list(g), list(both())]


@idiom
def send(a, b):
    def co():
        depth = 0
        while True:
            c = yield depth
            depth += {'{': 1, '_': -1}.get(c, 0)
    g = co()
    next(g)
    return [g.send(x) for x in a]


@idiom
def closures(a, b):
    n = 0

    def up(c):
        nonlocal n
        n += c == 'a'
        return n
    return [[up(c) for c in a], n]


@idiom
def trys(a, b):
    out = []
    for c in a:
        try:
            if c == '_':
                raise LookupError(c)
            if c == '{':
                continue
            out.append(c)
        except LookupError as e:
            out.append(e.args[0])
            break
        else:
            out.append('e')
        finally:
            out.append('f')
    else:
        out.append('end')
    return out


@idiom
def contexts(a, b):
    out = []

    @contextlib.contextmanager
    def cm(x):
        out.append('in')
        try:
            yield x + b
        finally:
            out.append('out')
    with cm(a) as v, contextlib.suppress(ValueError):
        out.append(v)
        int(a)
        out.append('never')
    with contextlib.suppress(KeyError, IndexError):
        out.append({'a': 1}[a[0]])
    return out


@dataclasses.dataclass
class Part:
    name: str
    values: list = dataclasses.field(default_factory=list)
    ok: bool = False

    @property
    def first(self):
        return self.name[:1]

    @functools.cached_property
    def low(self):
        return self.name.lower()


class Kind(enum.Enum):
    A = 'a'
    U = '_'

    @classmethod
    def of(cls, x):
        for k in cls:
            if k.value == x:
                return k
        return None


Pair = collections.namedtuple('Pair', 'left right')


class Tree:
    __slots__ = ('t', 'kids')
    known = {}

    def __init__(self, t):
        self.t = t
        self.kids = []

    def __len__(self):
        return len(self.t)

    def __contains__(self, x):
        return x in self.t

    def __iter__(self):
        yield from self.t

    def __getitem__(self, i):
        return self.t[i]

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __lt__(self, o):
        return self.t < o.t

    def __bool__(self):
        return self.t != 'aaa'

    def __add__(self, o):
        return Tree(self.t + o.t)

    def __str__(self):
        return '<' + self.t + '>'


@idiom
def classes(a, b):
    p = Part(a)
    p.values.append(b)
    q = Part(b, ok=a == b)
    t, u = Tree(a), Tree(b)
    r = Pair(a, right=b)
    return [p.first, p.low, p.low, q.ok, p == q, Part(a) == Part(b), str(Kind.of(a[0])), Kind.A.value == a[0], len(t), 'a' in t, list(t), t[0], t == u, t < u, bool(t), (t + u).t, str(t), r.left, r[1], r._replace(left=b).left, r == (a, b), r._asdict(),
            dataclasses.replace(p, name=b).name, len({t, u}), t in [u], sorted([t, u])[0].t, [x.t for x in dict.fromkeys([t, u])], getattr(t, 't'), hasattr(t, 'zz'), isinstance(t, Tree), type(t).__name__, dataclasses.asdict(q)]


@idiom
def caches(a, b):
    calls = []

    @functools.lru_cache(maxsize=None)
    def f(x):
        calls.append(x)
        return x + '!'

    @functools.cache
    def g(x, y=1):
        calls.append(x)
        return (x, y)
    r = [f(a), f(b), f(a), g(a), g(b, y=2), g(b, y=2), len(calls)]
    f.cache_clear()
    r.append(f(a))
    return r


@idiom
def res(a, b):
    out = []
    m = re.match(r'^(\w+)(_)?(.*)$', a)
    out.append(m.groups() if m else None)
    out.append(re.sub(r'_+', '-', a))
    out.append(re.sub(r'(a)(.)', r'\2\1', a))
    out.append(re.sub(r'[a{]', lambda m: '<' + m.group(0) + '>', a))
    out.append(re.split(r'[_ ]', a))
    out.append(re.split(r'(_)', a, maxsplit=1))
    out.append(re.findall(r'a|_', a))
    out.append(re.findall(r'(a)(_)?', a))
    out.append([(x.start(), x.end(), x.group()) for x in re.finditer(r'a+', a)])
    out.append(bool(re.fullmatch(r'[a_]*', a)))
    out.append(bool(re.search(r'\{$', a)))
    out.append(re.subn('a', 'b', a)[1])
    p = re.compile(r'(?P<x>a+)(?:_|:)(?P<y>.)?')
    m = p.search(a)
    out.append(m.groupdict() if m else None)
    out.append([m.span('x'), m['x'], m.lastgroup, m.start('y'), m.expand(r'\g<x>-'), m.string, m.pos] if m else 0)
    out.append(p.pattern)
    out.append(re.escape(a))
    out.append(bool(re.match('(?i)A', a)))
    out.append(bool(re.match('A', a, re.IGNORECASE)))
    out.append(bool(re.match(re.escape(a[0]), a)))
    return out


@idiom
def regexes(a, b):
    out = []
    p = regex.compile(r'(?P<x>a+)(?:_|:)(?P<y>.)?')
    m = p.match(a)
    out.append(m.groupdict() if m else None)
    out.append(regex.sub(r'\s*:', '', a))
    out.append(regex.split(r'_', a))
    out.append([x.group() for x in p.finditer(a + b)])
    out.append(p.findall(a))
    out.append(p.sub('x', a))
    out.append(bool(regex.fullmatch('a.*', a)))
    out.append(regex.match(r'(.)(.*)', a, regex.MULTILINE).group(1, 2))
    out.append([x for x in regex.splititer('_', a)])
    return out


@idiom
def paths(a, b):
    a = a.replace('"', 'q').replace(' ', 's').replace(':', 'c')
    p = '/x/' + a + '.bb'
    q = pathlib.PurePosixPath(p)
    return [os.path.join('/x', a), os.path.basename(p), os.path.dirname(p), os.path.splitext(p), os.path.split(p), os.path.normpath(p + '/..'), os.path.isabs(p), q.name, q.stem, q.suffix, str(q.parent), str(q / 'y'), q.with_suffix('.inc').name, os.path.commonprefix([p, '/x/a']), os.path.relpath(p, '/x'), q.parts, os.sep in p, os.path.commonpath(['/x/y', p]), str(q)]


@idiom
def fn(a, b):
    return [fnmatch.fnmatch(a, 'a*'), fnmatch.fnmatchcase(a, '*_?'), fnmatch.filter([a, b], 'a*'), textwrap.dedent('  ' + a + '\n  ' + b), textwrap.indent(a + '\n' + b, '> '), bisect.bisect([1, 3, 5], a.count('a') * 2)]


@idiom
def dedents(a, b):
    return [textwrap.dedent(' ' + a + '\n  ' + b + '\n'), '\n'.join(x[1:] for x in (a + '\n' + b).splitlines())]


@idiom
def stdstr(a, b):
    return [str(a), list(a), tuple(a), ''.join(a), str([1]), a.encode(), a.encode().decode(), bytes(a, 'utf-8').decode(), len(a.encode('utf-8')), (a + '\n').splitlines(keepends=True), a.__len__(), a.__contains__('a'), a.__class__ is str, type(a) is str, type(a) == str, isinstance(a, (str, bytes)), id(a) == id(a), a is a, callable(a), format(a), format(3, '03'), ascii('a'), hash(a) == hash(a)]  # noqa: E721


@idiom
def loops(a, b):
    out = []
    i = 0
    while i < len(a):
        if a[i] == '_':
            i += 2
            continue
        j = i
        while j < len(a) and a[j] != '{':
            j += 1
        out.append(a[i:j])
        i = j + 1
    for x in reversed(range(len(a))):
        if a[x] == 'a':
            out.append(x)
            break
    else:
        out.append('no')
    for i, (x, y) in enumerate(zip(a, a[1:])):
        if x == y:
            out.append(i)
    return out


@idiom
def ternaries(a, b):
    x = 1 if a == b else 2 if a < b else 3
    y = a and b or 'z'
    z = (a.strip() or None) or b
    w = a == b == 'aaa'
    v = 'a' < a[0] <= '{'
    u = not a.startswith('a') and ('_' in a or b.endswith('a'))
    lam = (lambda t: t.strip('_') or 'none')
    return [x, y, z, w, v, u, lam(a), a if a else b, None if a == b else a]


@idiom
def globs_(a, b):
    ns = {}
    for name, text in (('x', a), ('y', b)):
        ns[name] = text
    x, y = (ns[k] for k in ('x', 'y'))
    x, y = y, x
    x += y
    vals = vars(Part(a))
    return [x, y, vals.get('name'), max((len(z), z) for z in (a.strip(), b.strip())), next(iter(a)), next((i for i, c in enumerate(a) if c == '_'), -1), [*map(len, a.split('_'))], list(dict(sorted({'b': a, 'a': b}.items())).values())]


@idiom
def asserts(a, b):
    try:
        assert a != b, 'equal'
        if a > b:
            raise ValueError('bigger')
    except AssertionError as e:
        return str(e)
    except (ValueError, TypeError) as e:
        return ['x', *e.args]
    return 'fine'


@idiom
def formats(a, b):
    return ['{0}{1}{0}'.format(a, b), '{:s}|{:>5}'.format(a, b), '{a.name}'.format(a=Part(a)), '{0[0]}'.format([a]), '%-5s|%5s' % (a, b), '%d' % a.count('a'), '%r' % 1, f'{a + b:<8}|', f'{"x" if a == b else "y"}', '{{{}}}'.format(a), string.Template('$x').substitute(x=a), '{!s}'.format(a), '%s' % [1], '%s%%' % a, f"{a.count('a'):>3}"]


class Shown:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'shown ' + self.t


@idiom
def list_index(a, b):
    x, y, z = Shown(a), Shown(b), Shown(a)
    l = [x, y, x]
    u = collections.UserList(l)
    out = [l.index(x), l.index(y), l.index(x, 1), u.index(x, 1, 3), l.index(x, -1), list(a).index(a[1]), u.index(y)]
    for f in (lambda: l.index(z), lambda: u.index(z), lambda: l.index(y, 2), lambda: l.remove(z), lambda: u.remove(z), lambda: (x, y).index(z)):
        try:
            out.append(f())
        except ValueError:
            out.append('none')
    return out


def h(S, name, n):
    a = S.str('a', n, AL)
    b = S.str('b', 2, 'a_:')
    S.check(True, "reached")
    return F[name](a, b)


def units(tier):
    return [('h', [k, 3 if tier == 'quick' else 4]) for k in F]
