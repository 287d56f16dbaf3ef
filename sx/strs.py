"""Symbolic str / bool / int values and the primitive operations instrumented
code performs on them."""
import re
import string as _string

import types

from . import core
from .core import (And, Ctx, EqC, EngineError, Eq0, In, Le0, Lin, MapVar, Nd, Not, Or, Unsupported, Var,
                   branch, lin_add, lin_mul, map_var)


# ------------------------------------------------------------------- booleans

class SymBool:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return branch(self.n)

    def __invert__(self):
        return mkbool(Not(self.n))

    def __and__(self, o):
        r = bnode(o)
        return NotImplemented if r is None else mkbool(And([self.n, r]))

    __rand__ = __and__

    def __or__(self, o):
        r = bnode(o)
        return NotImplemented if r is None else mkbool(Or([self.n, r]))

    __ror__ = __or__

    def __xor__(self, o):
        r = bnode(o)
        if r is None:
            return NotImplemented
        return mkbool(Or([And([self.n, Not(r)]), And([Not(self.n), r])]))

    __rxor__ = __xor__

    def __eq__(self, o):
        r = bnode(o)
        if r is None:
            if isinstance(o, (int, float, SymInt)):
                return self.num() == o
            return False
        return mkbool(Or([And([self.n, r]), And([Not(self.n), Not(r)])]))

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return id(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def num(self):
        return mkint(core.lin(0, [(self.n, 1)]))

    def __add__(self, o):
        return self.num() + num(o)

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - num(o)

    def __rsub__(self, o):
        return num(o) - self.num()

    def __mul__(self, o):
        if isinstance(o, (int, SymInt, SymBool)):
            return self.num() * num(o)
        return o * int(self)

    __rmul__ = __mul__

    def __neg__(self):
        return -self.num()

    def __pos__(self):
        return self.num()

    __abs__ = __pos__

    def __lt__(self, o):
        return self.num() < num(o)

    def __le__(self, o):
        return self.num() <= num(o)

    def __gt__(self, o):
        return self.num() > num(o)

    def __ge__(self, o):
        return self.num() >= num(o)

    def __repr__(self):
        return 'SymBool(%r)' % (self.n,)


def num(x):
    return x.num() if x.__class__ is SymBool else x


def _concrete(name):
    def f(self, *a):
        return getattr(int(self), name)(*[int(x) if x.__class__ in (SymInt, SymBool) else x for x in a])
    f.__name__ = name
    return f


def bnode(x):
    if x.__class__ is SymBool:
        return x.n
    if x is True or x is False:
        return x
    return None


def mkbool(n):
    return n if n is True or n is False else SymBool(n)


def not_(x):
    return mkbool(Not(bnode(x)))


def land(*xs):
    return mkbool(And([bnode(tob(x)) for x in xs]))


def lor(*xs):
    return mkbool(Or([bnode(tob(x)) for x in xs]))


def tob(x):
    if x.__class__ is SymBool or x is True or x is False:
        return x
    return bool(x)


# ------------------------------------------------------------------- integers

class SymInt:
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    def __add__(self, o):
        o = ilin(o)
        return NotImplemented if o is None else mkint(lin_add(self.l, o))

    __radd__ = __add__

    def __sub__(self, o):
        o = ilin(o)
        return NotImplemented if o is None else mkint(lin_add(self.l, o, -1))

    def __rsub__(self, o):
        o = ilin(o)
        return NotImplemented if o is None else mkint(lin_add(lin_mul(self.l, -1), o))

    def __mul__(self, o):
        if isinstance(o, int):
            return mkint(lin_mul(self.l, int(o)))
        if isinstance(o, SymInt):
            return mkint(lin_mul(self.l, int(o)))
        return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(lin_mul(self.l, -1))

    def __pos__(self):
        return self

    def _cmp(self, o, f):
        o = ilin(o)
        if o is None:
            return NotImplemented
        return mkbool(f(lin_add(self.l, o, -1)))

    def __le__(self, o):
        return self._cmp(o, Le0)

    def __lt__(self, o):
        return self._cmp(o, lambda d: Le0(lin_add(d, 1)))

    def __ge__(self, o):
        return self._cmp(o, lambda d: Le0(lin_mul(d, -1)))

    def __gt__(self, o):
        return self._cmp(o, lambda d: Le0(lin_add(lin_mul(d, -1), 1)))

    def __eq__(self, o):
        r = self._cmp(o, Eq0)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, Eq0)
        return True if r is NotImplemented else not_(r)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return id(self)

    def __index__(self):
        lo, hi = core.lin_range(self.l)
        while lo < hi:
            mid = (lo + hi) // 2
            if branch(Le0(lin_add(self.l, -mid))):
                hi = mid
            else:
                lo = mid + 1
        return lo

    __int__ = __index__

    def __abs__(self):
        return -self if self < 0 else self

    def __floordiv__(self, o):
        return int(self) // int(o)

    def __mod__(self, o):
        return int(self) % int(o)

    def __repr__(self):
        return 'SymInt(%r)' % (self.l,)

    def __format__(self, spec):
        return format(int(self), spec)

    def __str__(self):
        return str(int(self))


for _n in ('__rfloordiv__', '__rmod__', '__divmod__', '__rdivmod__', '__pow__', '__rpow__', '__truediv__', '__rtruediv__', '__lshift__', '__rshift__', '__rlshift__', '__rrshift__', '__float__', '__round__'):
    setattr(SymInt, _n, _concrete(_n))
    setattr(SymBool, _n, _concrete(_n))
for _n in ('__and__', '__or__', '__xor__', '__rand__', '__ror__', '__rxor__', '__invert__', 'bit_length'):
    setattr(SymInt, _n, _concrete(_n))
for _n in ('__floordiv__', '__mod__'):
    setattr(SymBool, _n, _concrete(_n))


def ilin(x):
    if x.__class__ is SymInt:
        return x.l
    if x.__class__ is SymBool:
        return core.lin(0, [(x.n, 1)])
    if isinstance(x, int):
        return int(x)
    return None


def mkint(l):
    return SymInt(l) if isinstance(l, Lin) else l


# -------------------------------------------------------------------- strings

def chars_of(x):
    if x.__class__ is SymStr:
        return x.cs
    return tuple(map(ord, x))


def mk(cs):
    for c in cs:
        if c.__class__ is not int:
            return SymStr(tuple(cs))
    return ''.join(map(chr, cs))


def const_of(c):
    """fork until the character is one code point"""
    if c.__class__ is int:
        return c
    dom = list(core.bits(c.dom))
    while len(dom) > 1:
        h = len(dom) // 2
        m = core.mask_of(dom[:h])
        dom = dom[:h] if branch(In(c, m)) else dom[h:]
    return dom[0]


def is_sym(x):
    return x.__class__ is SymStr


def has_sym(x, d=0):
    c = x.__class__
    if c is SymStr or c is SymInt or c is SymBool:
        return True
    if c is str or c is int:
        return False
    if d < 4:
        if c is tuple or c is list:
            for y in x:
                if y.__class__ is not str and has_sym(y, d + 1):
                    return True
            return False
        if c is dict:
            for k, v in x.items():
                if (k.__class__ is not str and has_sym(k, d + 1)) or (v.__class__ is not str and has_sym(v, d + 1)):
                    return True
            return False
        if isinstance(x, (set, frozenset)) and c.__name__ in ('SymSet', 'SymFrozen'):
            return any(has_sym(y, d + 1) for y in x.elems())
    return False


def eq_chars(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        e = EqC(x, y)
        if e is False:
            return False
        if e is not True:
            out.append(e)
    return And(out)


def pred_mask(f):
    m = _pm.get(f)
    if m is None:
        m = _pm[f] = core.mask_of(i for i in range(256) if getattr(chr(i), f)())
    return m


_pm = {}
WS = core.mask_of(i for i in range(256) if chr(i).isspace())
ASCII = (1 << 128) - 1


def inset(c, mask):
    if c.__class__ is int:
        return c < 256 and bool(mask >> c & 1)
    return In(c, mask)


def cset_guard(c, chars):
    """c is one of the (possibly symbolic) characters"""
    m = 0
    alts = []
    for x in chars:
        if x.__class__ is int and x < 256:
            m |= 1 << x
        else:
            alts.append(EqC(c, x))
    return Or([inset(c, m)] + alts)


class SymStr:
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = cs

    @staticmethod
    def promote(s):
        return s if s.__class__ is SymStr else SymStr(tuple(map(ord, s)))

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __iter__(self):
        for c in self.cs:
            yield mk((c,))

    def __getitem__(self, i):
        if i.__class__ is slice:
            return mk(self.cs[i])
        return mk((self.cs[i],))

    def __add__(self, o):
        if o.__class__ is SymStr:
            return mk(self.cs + o.cs)
        if isinstance(o, str):
            return mk(self.cs + chars_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mk(chars_of(o) + self.cs)
        return NotImplemented

    def __mul__(self, k):
        return mk(self.cs * int(k))

    __rmul__ = __mul__

    def eqnode(self, o):
        if o.__class__ is SymStr:
            return eq_chars(self.cs, o.cs)
        if isinstance(o, str):
            return eq_chars(self.cs, chars_of(o))
        return False

    def __eq__(self, o):
        return mkbool(self.eqnode(o))

    def __ne__(self, o):
        return mkbool(Not(self.eqnode(o)))

    def _ltn(self, o, orequal):
        if o.__class__ is not SymStr and not isinstance(o, str):
            raise TypeError('str comparison')
        a, b = self.cs, chars_of(o)
        for x, y in zip(a, b):
            if branch(EqC(x, y)):
                continue
            return _char_lt(x, y)
        return len(a) < len(b) or (orequal and len(a) == len(b))

    def __lt__(self, o):
        return self._ltn(o, False)

    def __le__(self, o):
        return self._ltn(o, True)

    def __gt__(self, o):
        return not self._ltn(o, True)

    def __ge__(self, o):
        return not self._ltn(o, False)

    def __hash__(self):
        return id(self)

    def __contains__(self, o):
        return bool(contains_str(self, o))

    def __str__(self):
        raise Unsupported('native str() of a symbolic string')

    def __repr__(self):
        return 'SymStr(%s)' % ''.join(chr(c) if c.__class__ is int else '<%s>' % (c.name if c.__class__ is Var else 'map') for c in self.cs)

    def __format__(self, spec):
        raise Unsupported('native format() of a symbolic string')

    def __mod__(self, o):
        raise Unsupported('symbolic %% template')

    # -- predicates
    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return mkbool(Or([bnode(self.startswith(x, start, end)) for x in p]))
        cs = self.cs[start:end]
        pc = chars_of(p)
        if len(pc) > len(cs):
            return False
        return mkbool(eq_chars(cs[:len(pc)], pc))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return mkbool(Or([bnode(self.endswith(x, start, end)) for x in p]))
        cs = self.cs[start:end]
        pc = chars_of(p)
        if len(pc) > len(cs):
            return False
        return mkbool(eq_chars(cs[len(cs) - len(pc):], pc))

    def _all(self, f):
        m = pred_mask(f)
        return mkbool(And([inset(c, m) for c in self.cs])) if self.cs else False

    def isspace(self):
        return self._all('isspace')

    def isdigit(self):
        return self._all('isdigit')

    def isnumeric(self):
        return self._all('isnumeric')

    def isdecimal(self):
        return self._all('isdecimal')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isprintable(self):
        return self._all('isprintable') if self.cs else True

    def isascii(self):
        return mkbool(And([inset(c, ASCII) for c in self.cs]))

    def isidentifier(self):
        if not self.cs:
            return False
        m = core.mask_of(i for i in range(256) if ('a' + chr(i)).isidentifier())
        return mkbool(And([inset(self.cs[0], pred_mask('isidentifier'))] + [inset(c, m) for c in self.cs[1:]]))

    def isupper(self):
        return mkbool(And([Or([inset(c, pred_mask('isupper')) for c in self.cs]),
                           Not(Or([inset(c, pred_mask('islower')) for c in self.cs]))]))

    def islower(self):
        return mkbool(And([Or([inset(c, pred_mask('islower')) for c in self.cs]),
                           Not(Or([inset(c, pred_mask('isupper')) for c in self.cs]))]))

    # -- searching
    def _at(self, i, pc):
        return eq_chars(self.cs[i:i + len(pc)], pc)

    def find(self, sub, start=0, end=None):
        n = len(self.cs)
        start, end, _ = slice(start, end).indices(n)
        pc = chars_of(sub)
        for i in range(start, end - len(pc) + 1):
            if branch(self._at(i, pc)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        n = len(self.cs)
        start, end, _ = slice(start, end).indices(n)
        pc = chars_of(sub)
        for i in range(end - len(pc), start - 1, -1):
            if branch(self._at(i, pc)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=0, end=None):
        cs = self.cs[start:end]
        pc = chars_of(sub)
        if len(pc) == 1:
            return mkint(core.lin(0, [(EqC(c, pc[0]), 1) for c in cs]))
        if not pc:
            return len(cs) + 1
        n = i = 0
        while i + len(pc) <= len(cs):
            if branch(eq_chars(cs[i:i + len(pc)], pc)):
                n += 1
                i += len(pc)
            else:
                i += 1
        return n

    # -- stripping
    def _strip(self, chars, left, right):
        if chars is None:
            g = lambda c: inset(c, WS)
        else:
            pc = chars_of(chars)
            g = lambda c: cset_guard(c, pc)
        i, j = 0, len(self.cs)
        if left:
            while i < j and branch(g(self.cs[i])):
                i += 1
        if right:
            while j > i and branch(g(self.cs[j - 1])):
                j -= 1
        return mk(self.cs[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return mk(self.cs[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mk(self.cs[:len(self.cs) - len(p)]) if len(p) and self.endswith(p) else self

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out = []
            cur = []
            i = 0
            cs = self.cs
            while i < len(cs):
                if branch(inset(cs[i], WS)):
                    i += 1
                    continue
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk(cs[i:]))
                    return out
                cur = []
                while i < len(cs) and not branch(inset(cs[i], WS)):
                    cur.append(cs[i])
                    i += 1
                out.append(mk(cur))
            return out
        pc = chars_of(sep)
        if not pc:
            raise ValueError('empty separator')
        out = []
        last = i = 0
        while i + len(pc) <= len(self.cs) and (maxsplit < 0 or len(out) < maxsplit):
            if branch(self._at(i, pc)):
                out.append(mk(self.cs[last:i]))
                i += len(pc)
                last = i
            else:
                i += 1
        out.append(mk(self.cs[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit(None, n)')
        pc = chars_of(sep)
        out = []
        j = len(self.cs)
        i = j - len(pc)
        while i >= 0 and len(out) < maxsplit:
            if branch(self._at(i, pc)):
                out.append(mk(self.cs[i + len(pc):j]))
                j = i
                i -= len(pc)
            else:
                i -= 1
        out.append(mk(self.cs[:j]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (mk(self.cs[:i]), sep, mk(self.cs[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (mk(self.cs[:i]), sep, mk(self.cs[i + len(sep):]))

    def splitlines(self, keepends=False):
        br = core.mask_of('\n\r\v\f\x1c\x1d\x1e\x85')
        out = []
        last = i = 0
        n = len(self.cs)
        while i < n:
            if branch(inset(self.cs[i], br)):
                e = i + 1
                if e < n and branch(And([inset(self.cs[i], 1 << 13), inset(self.cs[e], 1 << 10)])):
                    e += 1
                out.append(mk(self.cs[last:e if keepends else i]))
                last = i = e
            else:
                i += 1
        if last < n:
            out.append(mk(self.cs[last:]))
        return out

    # -- building
    def replace(self, old, new, count=-1):
        oc, nc = chars_of(old), chars_of(new)
        count = int(count)
        out = []
        i = k = 0
        n = len(self.cs)
        if not oc:
            for i in range(n + 1):
                if count < 0 or k < count:
                    out.extend(nc)
                    k += 1
                if i < n:
                    out.append(self.cs[i])
            return mk(out)
        while i < n:
            if (count < 0 or k < count) and i + len(oc) <= n and branch(self._at(i, oc)):
                out.extend(nc)
                i += len(oc)
                k += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mk(out)

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.cs)
            first = False
            if x.__class__ is not SymStr and not isinstance(x, str):
                raise TypeError('sequence item: expected str instance')
            out.extend(chars_of(x))
        return mk(out)

    def format(self, *a, **k):
        for c in self.cs:
            if c.__class__ is not int and branch(inset(c, core.mask_of('{}'))):
                raise Unsupported('symbolic format template')
        return format_(self, a, k)

    def _map(self, f):
        tab = None
        out = []
        for c in self.cs:
            if c.__class__ is int:
                out.extend(map(ord, getattr(chr(c), f)()))
            else:
                if tab is None:
                    tab = tuple(ord(getattr(chr(i), f)()) if len(getattr(chr(i), f)()) == 1 and ord(getattr(chr(i), f)()) < 256 else -1 for i in range(256))
                bad = core.mask_of(i for i in range(256) if tab[i] < 0)
                if bad and branch(In(c, bad)):
                    out.extend(map(ord, getattr(chr(const_of(c)), f)()))
                else:
                    out.append(map_var(c, tuple(t if t >= 0 else 0 for t in tab)))
        return mk(out)

    def lower(self):
        return self._map('lower')

    def upper(self):
        return self._map('upper')

    def swapcase(self):
        return self._map('swapcase')

    def casefold(self):
        return self._map('casefold')

    def capitalize(self):
        if not self.cs:
            return self
        return _sadd(mk(self.cs[:1]), 'upper', mk(self.cs[1:]), 'lower')

    def title(self):
        raise Unsupported('title()')

    def translate(self, table):
        out = ''
        for ch in self:
            c = chars_of(ch)[0]
            if c.__class__ is int:
                out = out + chr(c).translate(table)
                continue
            for k, v in table.items():
                if branch(EqC(c, k)):
                    if v is not None:
                        out = out + (chr(v) if isinstance(v, int) else v)
                    break
            else:
                out = out + ch
        return out

    def encode(self, *a):
        return SymBytes((self,))

    def expandtabs(self, n=8):
        if branch(Or([inset(c, core.mask_of('\t')) for c in self.cs])):
            raise Unsupported('expandtabs')
        return self

    def zfill(self, w):
        return self if len(self) >= w else self.rjust(w, '0')

    def ljust(self, w, f=' '):
        return self + f * max(0, w - len(self))

    def rjust(self, w, f=' '):
        return f * max(0, w - len(self)) + self

    def center(self, w, f=' '):
        k = max(0, w - len(self))
        left = k // 2 + (k & w & 1)
        return f * left + self + f * (k - left)


def _sadd(a, fa, b, fb):
    return getattr(a, fa)() + getattr(b, fb)()


def _char_lt(x, y):
    if x.__class__ is int and y.__class__ is int:
        return x < y
    if y.__class__ is int:
        return branch(In(x, (1 << min(y, 256)) - 1))
    if x.__class__ is int:
        return branch(In(y, core.ALL & ~((1 << (x + 1)) - 1)))
    return branch(Or([And([In(x, (1 << c) - 1), In(y, 1 << c)]) for c in core.bits(y.dom)]))


def contains_str(s, o):
    if o.__class__ is not SymStr and not isinstance(o, str):
        raise TypeError("'in <string>' requires string as left operand")
    a, pc = chars_of(s), chars_of(o)
    if not pc:
        return True
    return mkbool(Or([eq_chars(a[i:i + len(pc)], pc) for i in range(len(a) - len(pc) + 1)]))


# ----------------------------------------------------------- opaque text/bytes

class Opaque:
    """text derived injectively from structured values (repr of containers, ...)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def encode(self, *a):
        return SymBytes((self,))

    def __add__(self, o):
        return Opaque(('+', self, o))

    def __radd__(self, o):
        return Opaque(('+', o, self))

    def __eq__(self, o):
        return o.__class__ is Opaque and deep_eq(self.parts, o.parts)

    def __hash__(self):
        return id(self)

    def _unknown(self, *a, **k):
        raise Unsupported('text of a symbolic container')

    __getitem__ = __len__ = __iter__ = __contains__ = __lt__ = __gt__ = __le__ = __ge__ = _unknown

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(name)
        raise Unsupported('text of a symbolic container')


class SymBytes:
    __slots__ = ('parts',)

    def decode(self, *a, **k):
        out = ''
        for x in self.parts:
            out = out + (x.decode() if isinstance(x, bytes) else x)
        return out

    def __len__(self):
        raise Unsupported('length of symbolic bytes')

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __add__(self, o):
        return SymBytes(self.parts + (o.parts if o.__class__ is SymBytes else (o,)))

    def __radd__(self, o):
        return SymBytes((o,) + self.parts)

    def __eq__(self, o):
        return o.__class__ is SymBytes and deep_eq(self.parts, o.parts)

    def __hash__(self):
        return id(self)


class Digest:
    """injective stand-in of a hash value"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, o):
        return o.__class__ is Digest and deep_eq(self.parts, o.parts)

    def __ne__(self, o):
        return not_(tob(self == o))

    def __hash__(self):
        return 1


class HashObj:
    def __init__(self, name, data=None):
        self.name = name
        self.buf = []
        if data is not None:
            self.update(data)

    def update(self, data):
        if data.__class__ is SymBytes:
            parts = list(data.parts)
        else:
            parts = [data.decode('latin-1')]
        for p in parts:
            # byte streams concatenate: keep adjacent plain text merged
            if self.buf and p.__class__ is not Opaque and self.buf[-1].__class__ is not Opaque:
                self.buf[-1] = self.buf[-1] + p
            elif p.__class__ is Opaque or len(p):
                self.buf.append(p)

    def hexdigest(self):
        return Digest((self.name, tuple(self.buf)))

    digest = hexdigest

    def copy(self):
        h = HashObj(self.name)
        h.buf = list(self.buf)
        return h


def freeze(x, d=0):
    """immutable snapshot of a value for Opaque"""
    if d > 6:
        raise Unsupported('deep repr')
    if x.__class__ is dict or isinstance(x, dict):
        return ('dict', tuple((freeze(k, d + 1), freeze(v, d + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (x.__class__.__name__, tuple(freeze(y, d + 1) for y in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(freeze(y, d + 1) for y in x))
    return x


# ------------------------------------------------------------------- deep eq

def deep_eq(a, b):
    """structural equality as one formula (no forks)"""
    return mkbool(_deq(a, b))


def _deq(a, b):
    if a is b:
        return True
    ca, cb = a.__class__, b.__class__
    if ca is SymStr:
        return a.eqnode(b)
    if cb is SymStr:
        return b.eqnode(a)
    if ca in (SymInt, SymBool) or cb in (SymInt, SymBool):
        if ca is SymBool and bnode(b) is not None or cb is SymBool and bnode(a) is not None:
            return bnode(a == b if ca is SymBool else b == a)
        la, lb = ilin(a), ilin(b)
        if la is None or lb is None:
            return False
        return Eq0(lin_add(la, lb, -1))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            e = _deq(x, y)
            if e is False:
                return False
            out.append(e)
        return And(out)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        if not any(is_sym(k) for k in a) and not any(is_sym(k) for k in b):
            if set(a) != set(b):
                return False
            return And([_deq(a[k], b[k]) for k in a])
        return And([Or([And([_deq(k, k2), _deq(v, v2)]) for k2, v2 in b.items()]) for k, v in a.items()])
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        ea = list(a.elems()) if hasattr(a, 'elems') else list(a)
        eb = list(b.elems()) if hasattr(b, 'elems') else list(b)
        return And([Or([_deq(x, y) for y in eb]) for x in ea] + [Or([_deq(x, y) for x in ea]) for y in eb])
    if ca in (Opaque, SymBytes, Digest) and ca is cb:
        return bnode(tob(deep_eq(a.parts, b.parts)))
    r = a == b
    n = bnode(r)
    if n is None:
        n = bool(r)
    return n


# ------------------------------------------------------------------ formatting

def format_(tmpl, args, kw):
    t = ''.join(chr(c) if c.__class__ is int else '\ue000' for c in chars_of(tmpl))
    symc = [c for c in chars_of(tmpl) if c.__class__ is not int]
    out = ''
    auto = 0
    k = 0
    for lit, field, spec, conv in _string.Formatter().parse(t):
        if lit:
            cs = []
            for ch in lit:
                if ch == '\ue000':
                    cs.append(symc[k])
                    k += 1
                else:
                    cs.append(ord(ch))
            out = out + mk(cs)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        else:
            first, rest = _string._string.formatter_field_name_split(field)
            v = args[first] if isinstance(first, int) else kw[first]
            for isattr, nm in rest:
                v = getattr(v, nm) if isattr else v[nm]
        out = out + to_text(v, conv, spec)
    return out


def to_text(v, conv=None, spec=''):
    if conv in ('r', 'a'):
        if has_sym(v):
            return Opaque(('repr', freeze(v)))
        if isinstance(v.__class__.__repr__, types.FunctionType):
            return v.__repr__()
        return format(repr(v), spec)
    if is_sym(spec):
        from .instr import pinned
        spec = pinned(spec)
    if v.__class__ is SymStr:
        return pad(v, spec) if spec and spec != 's' else v
    if v.__class__ is Opaque:
        return v
    if v.__class__ is SymInt:
        lo, hi = core.lin_range(v.l)
        if spec or hi - lo <= 64:
            return format(int(v), spec)
        return Opaque(('int', v))
    if v.__class__ is SymBool:
        return format(bool(v), spec) if spec else str(bool(v))
    if isinstance(v, str):
        return format(v, spec)
    if has_sym(v) or isinstance(v, (dict, list, tuple, set, frozenset)):
        return Opaque(('repr', freeze(v)))
    r = v.__class__.__repr__ if v.__class__.__str__ is object.__str__ else v.__class__.__str__
    if r not in (object.__repr__, int.__repr__, float.__repr__) and not isinstance(v, (int, float, bool, type(None), BaseException)):
        return r(v)
    return format(v, spec)


def pad(v, spec):
    """[[fill]align][0][width][.precision][s]"""
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported('format spec on symbolic text')
    fill, align, width, prec = m.groups()
    if prec:
        v = v[:int(prec)]
    n = int(width or 0) - len(v)
    if n <= 0:
        return v
    fill = fill or ' '
    left = n if align == '>' else n // 2 if align == '^' else 0
    return fill * left + v + fill * (n - left)


_SPEC = re.compile(r'^(?:(.)?([<>^]))?(\d*)(?:\.(\d+))?s?$')


def mod_(tmpl, arg):
    """'%' formatting with symbolic arguments (%s, %d, %r only)"""
    args = arg if isinstance(arg, tuple) else (arg,)
    out = ''
    i = 0
    k = 0
    while i < len(tmpl):
        c = tmpl[i]
        if c != '%':
            out = out + c
            i += 1
            continue
        m = _PERCENT.match(tmpl, i + 1)
        if not m:
            raise Unsupported('% format')
        name, left, zero, width, prec, d = m.groups()
        i = m.end()
        if d == '%':
            out = out + '%'
            continue
        if name is not None:
            v = arg[name]
        else:
            v = args[k]
            k += 1
        spec = ''
        if width or prec:
            spec = ('<' if left else '0' if zero and d in 'di' else '>' if d in 'sr' else '') + (width or '') + ('.' + prec if prec else '')
        out = out + (to_text(v, 'r') if d == 'r' else to_text(v, None, spec))
    return out


_PERCENT = re.compile(r'(?:\(([^)]*)\))?(-?)(0?)(\d*)(?:\.(\d+))?([sdri%])')


def callable_(x):
    return callable(x) and x.__class__ is not SymStr


# ------------------------------------------------------------------------ sets

class _SetBase:
    """insertion-ordered set; iteration order may be an arbitrary permutation (order_hook)"""
    order_hook = None
    hash_hook = None           # hash() and id() of values that differ between processes

    def _init(self, it):
        self._d = {}            # concrete elements -> None (insertion order kept in _o)
        self._o = []            # all elements in insertion order
        self._s = 0             # number of symbolic elements
        for x in (it._o if isinstance(it, _SetBase) else it):
            self._add(x)

    def elems(self):
        return self._o

    def _find(self, x):
        """the stored element equal to x, or _NO"""
        if not has_sym(x):
            if x in self._d:
                return x
            if self._s:
                for y in self._o:
                    if has_sym(y) and branch(_deq(x, y)):
                        return y
            return _NO
        for y in self._o:
            if y is x:
                return y
        for y in self._o:
            if branch(_deq(x, y)):
                return y
        return _NO

    def _add(self, x):
        if self._find(x) is _NO:
            self._o.append(x)
            if has_sym(x):
                self._s += 1
            else:
                self._d[x] = None

    def _del(self, y):
        for i, z in enumerate(self._o):
            if z is y or (not has_sym(z) and not has_sym(y) and z == y):
                del self._o[i]
                break
        if has_sym(y):
            self._s -= 1
        else:
            self._d.pop(y, None)

    def __iter__(self):
        o = list(self._o)
        h = _SetBase.order_hook
        if h is not None and len(o) > 1:
            o = h(o, self)
        return iter(o)

    def __len__(self):
        return len(self._o)

    def __bool__(self):
        return bool(self._o)

    def __contains__(self, x):
        return self._find(x) is not _NO

    def has(self, x):
        """membership as a formula"""
        if not self._s and not has_sym(x):
            return x in self._d
        return mkbool(Or([_deq(x, y) for y in self._o]))

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return mkbool(_deq(self, o))

    def __ne__(self, o):
        return not_(tob(self == o))

    def _el(self, o):
        return o.elems() if isinstance(o, _SetBase) else list(o)

    def _new(self, it):
        return self.__class__(it)

    def union(self, *os):
        r = self._new(self._o)
        for o in os:
            for x in self._el(o):
                r._add(x)
        return r

    def __or__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.union(o)

    def __ror__(self, o):
        return self._new(self._el(o)).union(self)

    def intersection(self, *os):
        r = list(self._o)
        for o in os:
            s = SymSet(self._el(o))
            r = [x for x in r if x in s]
        return self._new(r)

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def difference(self, *os):
        r = list(self._o)
        for o in os:
            s = SymSet(self._el(o))
            r = [x for x in r if x not in s]
        return self._new(r)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return self._new(self._el(o)).difference(self)

    def symmetric_difference(self, o):
        o = SymSet(self._el(o))
        return self._new([x for x in self._o if x not in o] + [x for x in o._o if x not in self])

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def issubset(self, o):
        s = SymSet(self._el(o))
        return all(x in s for x in self._o)

    def issuperset(self, o):
        return all(x in self for x in self._el(o))

    def isdisjoint(self, o):
        return not any(x in self for x in self._el(o))

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def copy(self):
        return self._new(self._o)

    def __repr__(self):
        t = '{%s}' % ', '.join(map(repr, iter(self))) if self._o else ''
        return 'frozenset(%s)' % t if isinstance(self, frozenset) else t or 'set()'

    def __reduce__(self):
        raise Unsupported('pickling a set')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()


_NO = object()


class SymSet(_SetBase, set):
    def __init__(self, it=()):
        set.__init__(self)
        self._init(it)

    __hash__ = None

    def add(self, x):
        self._add(x)

    def update(self, *os):
        for o in os:
            for x in self._el(o):
                self._add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        for x in list(self._el(o)):
            self.discard(x)
        return self

    def __iand__(self, o):
        r = self.intersection(o)
        self._init(r._o)
        return self

    def difference_update(self, *os):
        for o in os:
            for x in list(self._el(o)):
                self.discard(x)

    def intersection_update(self, *os):
        self._init(self.intersection(*os)._o)

    def discard(self, x):
        y = self._find(x)
        if y is not _NO:
            self._del(y)

    def remove(self, x):
        y = self._find(x)
        if y is _NO:
            raise KeyError(x)
        self._del(y)

    def pop(self):
        if not self._o:
            raise KeyError('pop from an empty set')
        y = next(iter(self))
        self._del(y)
        return y

    def clear(self):
        self._init(())


class SymFrozen(_SetBase, frozenset):
    def __new__(cls, it=()):
        return frozenset.__new__(cls)

    def __init__(self, it=()):
        self._init(it)

    def __hash__(self):
        if self._s:
            return 7
        return hash(frozenset(self._d))


def _self_copy(cls):
    cls.__copy__ = lambda self: self
    cls.__deepcopy__ = lambda self, memo: self


for _c in (SymStr, SymInt, SymBool, Opaque, SymBytes, Digest):
    _self_copy(_c)
