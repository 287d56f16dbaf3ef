"""Instrumentation of Python source for symbolic execution.

The source of a module is parsed, the operations on which CPython would look at
concrete values inside C code are rewritten into calls of a dispatcher (`_sx_`),
and the result is executed by CPython.  Nothing of the module is re-modelled:
control flow, data structures, classes and exceptions are the interpreter's own.
"""
import ast
import builtins
import collections
import functools
import hashlib
import io
import json
import operator
import os
import sys
import types

from . import core, rx, strs
from .core import Ctx, EngineError, Unsupported, branch
from .strs import (Digest, HashObj, Opaque, SymBool, SymBytes, SymFrozen, SymInt, SymSet, SymStr, _deq,
                   _SetBase, chars_of, const_of, contains_str, deep_eq, format_, freeze, has_sym, is_sym,
                   mk, mkbool, not_, tob, to_text)

SYM = (SymStr, SymInt, SymBool)


# ------------------------------------------------------------- AST rewriting

def _mangle(cls, name):
    if cls and name.startswith('__') and not name.endswith('__') and '.' not in name:
        c = cls.lstrip('_')
        return '_%s%s' % (c, name) if c else name
    return name


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.cls = [None]
        self.kind = []

    def sx(self, name, node, args, keywords=()):
        f = ast.Attribute(ast.Name('_sx_', ast.Load()), name, ast.Load())
        return ast.copy_location(ast.Call(f, list(args), list(keywords)), node)

    # -- definitions
    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        n.bases = [self.visit(x) for x in n.bases]
        n.keywords = [self.visit(x) for x in n.keywords]
        self.cls.append(n.name)
        self.kind.append('class')
        n.body = self._body(n.body)
        self.kind.pop()
        self.cls.pop()
        return n

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [n.args.vararg, n.args.kwarg]:
            if a is not None:
                a.annotation = None
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        n.args.defaults = [self.visit(x) for x in n.args.defaults]
        n.args.kw_defaults = [self.visit(x) if x is not None else None for x in n.args.kw_defaults]
        inclass = self.kind and self.kind[-1] == 'class'
        self.kind.append('func')
        n.body = self._body(n.body)
        self.kind.pop()
        if inclass and n.name in ('__bool__', '__len__', '__index__', '__int__', '__contains__'):
            # the interpreter insists on a native result
            conv = 'native_bool' if n.name in ('__bool__', '__contains__') else 'native_int'
            for r in ast.walk(n):
                if isinstance(r, ast.Return) and r.value is not None:
                    r.value = self.sx(conv, r, [r.value])
        if hasattr(n, 'type_params'):
            n.type_params = []
        return n

    def visit_AnnAssign(self, n):
        if self.kind and self.kind[-1] == 'class':
            if n.value is not None:
                n.value = self.visit(n.value)
            return n
        if n.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    # -- loops
    def _loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(self.sx('tick', n, [])), n))
        return n

    visit_While = _loop
    visit_For = _loop

    # -- expressions
    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'globals', 'vars', 'dir'):
            self.generic_visit(n)
            return n
        args = [self.visit(a) for a in n.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
        if isinstance(f, ast.Attribute):
            return self.sx('callm', n, [self.visit(f.value), ast.Constant(_mangle(self.cls[-1], f.attr))] + args, kws)
        return self.sx('call', n, [self.visit(f)] + args, kws)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return self.sx('contains' if isinstance(n.ops[0], ast.In) else 'ncontains', n, [n.left, n.comparators[0]])
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            return self.sx('eq' if isinstance(n.ops[0], ast.Eq) else 'ne', n, [n.left, n.comparators[0]])
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == '__class__' and isinstance(n.ctx, ast.Load):
            return self.sx('class_of', n, [n.value])
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return self.sx('not_', n, [n.operand])
        return n

    def visit_Slice(self, n):
        self.generic_visit(n)
        none = ast.Constant(None)
        return self.sx('slice', n, [n.lower or none, n.upper or none, n.step or none])

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return self.sx('getitem', n, [n.value, n.slice])
        return ast.copy_location(ast.Attribute(self.sx('ref', n, [n.value, n.slice]), 'v', n.ctx), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        elts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                elts.append(ast.Tuple([v], ast.Load()))
            else:
                elts.append(ast.Tuple([k, v], ast.Load()))
        return self.sx('mkdict', n, [ast.List(elts, ast.Load())])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return self.sx('mkdict', n, [ast.copy_location(g, n)])

    def visit_Set(self, n):
        self.generic_visit(n)
        return self.sx('mkset', n, [ast.List(n.elts, ast.Load())])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self.sx('mkset', n, [ast.copy_location(ast.GeneratorExp(n.elt, n.generators), n)])

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                conv = ast.Constant(chr(v.conversion)) if v.conversion > 0 else ast.Constant(None)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
            else:
                parts.append(v)
        return self.sx('fstr', n, parts)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self.sx('mod', n, [n.left, n.right])
        if type(n.op) in _SETOP:
            return self.sx('setop', n, [ast.Constant(_SETOP[type(n.op)]), n.left, n.right])
        return n

    def visit_MatchClass(self, n):
        self.generic_visit(n)
        if isinstance(n.cls, ast.Name) and n.cls.id in ('str', 'int', 'bool', 'bytes', 'set', 'frozenset') and not n.kwd_attrs:
            sub = n.patterns
            if not sub or len(sub) == 1 and isinstance(sub[0], ast.MatchAs) and sub[0].pattern is None:
                c = ast.copy_location(ast.MatchClass(ast.copy_location(ast.Attribute(ast.Name('_sx_', ast.Load()), 'is_' + n.cls.id, ast.Load()), n), [], [], []), n)
                if not sub or sub[0].name is None:
                    return c
                return ast.copy_location(ast.MatchAs(c, sub[0].name), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        return n


_SETOP = {ast.BitAnd: '__and__', ast.BitOr: '__or__', ast.BitXor: '__xor__', ast.Sub: '__sub__'}
_code_cache = {}


def compile_source(src, fname):
    key = (fname, src)
    c = _code_cache.get(key)
    if c is None:
        tree = ast.parse(src, fname)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        c = _code_cache[key] = compile(tree, fname, 'exec', dont_inherit=True)
    return c


# ------------------------------------------------------------------ dispatch

def _matcher(t):
    class M(type):
        def __instancecheck__(cls, x):
            return _isinstance(x, t)
    return M('is_' + t.__name__, (), {})


def dict_find(d, key):
    """stored key equal to key, or the sentinel"""
    if not has_sym(key):
        if dict.__contains__(d, key):
            return key
        for k in d:
            if has_sym(k) and branch(_deq(key, k)):
                return k
        return _NO
    for k in d:
        if k is key:
            return k
    for k in list(d):
        if branch(_deq(key, k)):
            return k
    return _NO


_NO = object()


def _symdict(d):
    for k in d:
        c = k.__class__
        if c is SymStr or c is tuple and has_sym(k):
            return True
    return False


def pinned(x, d=0):
    """concretise a value (fallback for operations the executor has no model for)"""
    c = x.__class__
    if c is SymStr:
        sy = [i for i in x.cs if i.__class__ is not int]
        vals = dict(zip(map(id, sy), Ctx.cur.pin(sy)))
        return ''.join(chr(vals.get(id(i), i) if i.__class__ is not int else i) for i in x.cs)
    if c is SymInt:
        return int(x)
    if c is SymBool:
        return bool(x)
    if d < 4:
        if c in (list, tuple):
            return c(pinned(y, d + 1) for y in x)
        if isinstance(x, _SetBase):
            return SymFrozen(pinned(y, d + 1) for y in x._o) if isinstance(x, frozenset) else SymSet(pinned(y, d + 1) for y in x._o)
        if c is dict:
            return {pinned(k, d + 1): pinned(v, d + 1) for k, v in x.items()}
    return x


class Ref:
    __slots__ = ('o', 'i')

    def __init__(self, o, i):
        self.o, self.i = o, i

    @property
    def v(self):
        return SX.getitem(self.o, self.i)

    @v.setter
    def v(self, x):
        o, i = self.o, self.i
        if isinstance(o, dict):
            k = dict_find(o, i)
            o[i if k is _NO else k] = x
            return
        if i.__class__ is SymInt:
            i = int(i)
        o[i] = x

    @v.deleter
    def v(self):
        o, i = self.o, self.i
        if isinstance(o, dict):
            k = dict_find(o, i)
            if k is _NO:
                raise KeyError(i)
            del o[k]
            return
        if i.__class__ is SymInt:
            i = int(i)
        del o[i]


def _isinstance(x, t):
    if x.__class__ in SYM or x.__class__ is Opaque or x.__class__ is SymBytes or x.__class__ is Digest:
        nt = {SymStr: str, SymInt: int, SymBool: bool, Opaque: str, SymBytes: bytes, Digest: str}[x.__class__]
        def one(k):
            if isinstance(k, tuple):
                return any(one(y) for y in k)
            if isinstance(k, types.UnionType):
                return any(one(y) for y in k.__args__)
            try:
                return issubclass(nt, k)
            except TypeError:
                return isinstance(x, k)
        return one(t)
    return isinstance(x, t)


def _type(*a):
    if len(a) == 1:
        return {SymStr: str, SymInt: int, SymBool: bool, SymSet: set, SymFrozen: frozenset, Opaque: str}.get(a[0].__class__, type(a[0]))
    return type(*a)


def _str(x='', *a, **k):
    if a or k:
        return str(x, *a, **k)
    return to_text(x)


def _repr(x):
    return to_text(x, 'r')


def _int(x=0, *a):
    if x.__class__ is SymStr:
        x = ''.join(chr(const_of(c)) for c in x.cs)
    elif x.__class__ in (SymInt, SymBool):
        return x if x.__class__ is SymInt else strs.mkint(core.lin(0, [(x.n, 1)]))
    return int(x, *a)


def _bool(x=False):
    return tob(x)


def _ord(x):
    if is_sym(x):
        return const_of(x.cs[0])
    return ord(x)


def _chr(x):
    return chr(int(x))


def _hash(x):
    if has_sym(x):
        x = pinned(x)
    h = _SetBase.hash_hook
    if h is not None and x.__class__ is not int and not isinstance(x, (bool, float)):
        return h('hash', x)
    return hash(x)


def _id(x):
    h = _SetBase.hash_hook
    if h is not None:
        return h('id', x)
    return id(x)


def _dict(*a, **k):
    d = {}
    for x in a:
        _dupdate(d, x)
    _dupdate(d, k)
    return d


def _dupdate(d, x):
    if x is None:
        return
    if isinstance(x, dict):
        it = list(x.items())
    elif hasattr(x, 'keys'):
        it = [(kk, x[kk]) for kk in x.keys()]
    else:
        it = x
    for kv in it:
        k, v = kv
        kk = dict_find(d, k)
        d[k if kk is _NO else kk] = v


def _counter(*a, **k):
    c = collections.Counter()
    _count(c, a, k, 1)
    return c


def _count(c, a, k, sign):
    for x in a:
        it = x.items() if isinstance(x, dict) else ((y, 1) for y in (x or ()))
        for y, n in it:
            kk = dict_find(c, y)
            kk = y if kk is _NO else kk
            dict.__setitem__(c, kk, dict.get(c, kk, 0) + sign * n)
    for y, n in k.items():
        c[y] += sign * n


def _dictlike(t):
    def f(*a, **k):
        d = t(*a[:1]) if t is collections.defaultdict else t()
        for x in a[1:] if t is collections.defaultdict else a:
            _dupdate(d, x)
        _dupdate(d, k)
        return d
    return f


def _wrapped(a):
    """callables handed to C code, which would look into their arguments"""
    return [_wrapf(x) if type(x) in (_B, _MD, _WD, type) else x for x in a]


def _wrapf(f):
    if f is None or isinstance(f, types.FunctionType):
        return f
    return lambda *a: SX.call(f, *a)


def _unord(it):
    """elements for an operation whose result does not depend on their order"""
    return it.elems() if isinstance(it, _SetBase) else it


def _sorted(it, *, key=None, reverse=False):
    if key is None:
        it = _unord(it)
    return sorted(it, key=_wrapf(key), reverse=reverse)


def _map(f, *its):
    return map(_wrapf(f), *its)


def _filter(f, it):
    if f is None:
        return (x for x in it if x)
    f = _wrapf(f)
    return (x for x in it if f(x))


def _mm(fn):
    def f(*a, **k):
        if 'key' in k:
            k['key'] = _wrapf(k['key'])
        return fn(*a, **k)
    return f


def _any(it):
    ns = []
    for x in it:
        c = x.__class__
        if c is SymBool:
            ns.append(x.n)
        elif x:
            return True
    return mkbool(core.Or(ns))


def _any_strict(it):
    for x in _unord(it):
        if x:
            return True
    return False


def _getattr(o, name, *d):
    if is_sym(name):
        name = pinned(name)
    return getattr(o, name, *d)


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _range(*a):
    return range(*[int(x) for x in a])


def _print(*a, **k):
    return None


def _list(*a):
    return list(*a)


def _callable(f):
    return callable(f) and not isinstance(f, SYM)


TABLE = {
    str: _str, repr: _repr, isinstance: _isinstance, int: _int, bool: _bool, ord: _ord, chr: _chr,
    hash: _hash, id: _id, dict: _dict, set: SymSet, frozenset: SymFrozen, sorted: _sorted, map: _map, filter: _filter,
    min: _mm(min), max: _mm(max), getattr: _getattr, sum: _sum, range: _range, print: _print, type: _type,
    any: _any_strict, callable: _callable, format: lambda x, spec='': to_text(x, None, spec), collections.Counter: _counter, collections.OrderedDict: _dictlike(collections.OrderedDict),
    collections.defaultdict: _dictlike(collections.defaultdict),
}

OKNATIVE = {list, tuple, enumerate, zip, reversed, iter, next, all, len, setattr, hasattr, issubclass, abs,
            divmod, slice, object, property, staticmethod, classmethod, BaseException, round, delattr,
            collections.OrderedDict, collections.deque, collections.UserList, type}

_B = type(len)
_MD = type(str.strip)
_WD = type(str.__len__)
_BM = type([].append)

OKMODS = {'collections', 'copy', 'functools', 'typing', 'contextlib', 'dataclasses', 'abc', 'types', 'enum', 'itertools',
          'operator', 'z3', 'warnings', 'weakref'}


_ITER = ('join', 'format', 'format_map', 'translate')


def _index(o, x, *se):
    """list.index, whose message needs the representation of the value"""
    for i in range(*slice(*[int(v) for v in se], *([None] * (2 - len(se)))).indices(len(o))) if se else range(len(o)):
        if o[i] is x or o[i] == x:
            return i
    raise ValueError('value is not in list')


class SX:
    """the dispatcher instrumented code talks to"""

    hooks = {}
    is_str, is_int, is_bool, is_bytes = _matcher(str), _matcher(int), _matcher(bool), _matcher(bytes)
    is_set, is_frozenset = _matcher(set), _matcher(frozenset)

    @staticmethod
    def class_of(x):
        return _type(x) if x.__class__ in SYM else x.__class__

    @staticmethod
    def native_bool(x):
        return bool(x) if x.__class__ in SYM else x

    @staticmethod
    def native_int(x):
        return int(x) if x.__class__ in (SymInt, SymBool) else x

    @staticmethod
    def setop(op, a, b):
        if a.__class__ in _VIEWS or b.__class__ in _VIEWS:
            if not isinstance(a, _SetBase):
                a = SymSet(a)
            if not isinstance(b, _SetBase):
                b = SymSet(b)
        return _OPS[op](a, b)

    @staticmethod
    def tick():
        c = Ctx.cur
        if c is not None:
            c.tick()

    @staticmethod
    def slice(a, b, c):
        f = lambda x: int(x) if x.__class__ is SymInt else x
        return slice(f(a), f(b), f(c))

    @staticmethod
    def call(f, /, *a, **k):
        try:
            h = TABLE.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*a, **k)
        t = type(f)
        if t is types.FunctionType or t is types.MethodType:
            g = getattr(f, '__globals__', None)
            if g is None:
                g = getattr(getattr(f, '__func__', None), '__globals__', {})
            if '_sx_' in g:
                c = Ctx.cur
                if c is not None:
                    c.tick()
                return f(*a, **k)
            m = (g.get('__name__') or '').split('.')[0]
            if m in OKMODS or m in ('sx', 'props', '__main__') or not (has_sym(a) or has_sym(k)):
                return f(*a, **k)
            return f(*pinned(a), **pinned(k))
        if t is _B:
            s = getattr(f, '__self__', None)
            if s is None or isinstance(s, types.ModuleType):
                if f in OKNATIVE or not (has_sym(a) or has_sym(k)):
                    return f(*a, **k)
                if getattr(f, '__module__', '') in ('_operator', '_functools', '_abc', '_collections'):
                    return f(*a, **k)
                return f(*pinned(a), **pinned(k))
            return SX.callm(s, f.__name__, *a, **k)
        if t is _MD or t is _WD:
            if a:
                return SX.callm(a[0], f.__name__, *a[1:], **k)
            return f(*a, **k)
        if isinstance(f, type):
            if f.__module__ == 'itertools':
                return f(*_wrapped(a), **{x: _wrapf(y) if x in ('key', 'func') else y for x, y in k.items()})
            if f in OKNATIVE or issubclass(f, BaseException):
                return f(*a, **k)
            m = f.__module__.split('.')[0]
            if f is str or f is bytes or m in ('builtins', 'posixpath', 'pathlib', 'io', '_io') and (has_sym(a) or has_sym(k)):
                return f(*pinned(a), **pinned(k))
        return f(*a, **k)

    @staticmethod
    def callm(o, name, /, *a, **k):
        c = o.__class__
        if c is SymStr:
            try:
                m = getattr(o, name)
            except AttributeError:
                if not hasattr(str, name):
                    raise
                return getattr(pinned(o), name)(*pinned(a), **pinned(k))
            try:
                return m(*a, **k)
            except Unsupported:
                if Ctx.cur is None:
                    raise
                return getattr(pinned(o), name)(*pinned(a), **pinned(k))
        if c is str:
            if not k and len(a) == 1 and a[0].__class__ is str and name not in _ITER:
                return getattr(o, name)(a[0])
            if name == 'join':
                it = list(a[0])
                if any(x.__class__ is Opaque for x in it):
                    return Opaque(('join', o, tuple(it)))
                if has_sym(it):
                    return SymStr.promote(o).join(it)
                return o.join(it)
            if name == 'format':
                return format_(o, a, k)
            if (a or k) and (has_sym(a) or has_sym(k)):
                if any(x.__class__ is SymInt for x in a):
                    a = tuple(int(x) if x.__class__ is SymInt else x for x in a)
                    if not has_sym(a):
                        return getattr(o, name)(*a, **k)
                return SX.callm(SymStr.promote(o), name, *a, **k)
            return getattr(o, name)(*a, **k)
        if isinstance(o, dict) and c is not rx._LazyGroups:
            r = _dictm(o, name, a, k)
            if r is not _NO:
                return r
        elif c is list:
            if name == 'sort' and 'key' in k:
                k['key'] = _wrapf(k['key'])
            if name == 'index' and a and not k:
                return _index(o, *a)
            return getattr(o, name)(*a, **k)
        elif name == 'index' and a and not k and isinstance(o, collections.UserList) and c.index is collections.UserList.index:
            return _index(o.data, *a)
        elif c is type:
            if o is set:
                o = SymSet
            elif o is frozenset:
                o = SymFrozen
            elif name == 'fromkeys' and issubclass(o, dict):
                d = o()
                for x in a[0]:
                    if dict_find(d, x) is _NO:
                        d[x] = a[1] if len(a) > 1 else None
                return d
            elif o is str and a and is_sym(a[0]):
                return SX.callm(a[0], name, *a[1:], **k)
            elif o is str and name == 'join' and len(a) == 2:
                return SX.callm(a[0], name, a[1])
            elif o.__module__ == 'itertools':
                return getattr(o, name)(*a)
            elif o is str and name == 'maketrans':
                return str.maketrans(*pinned(a))
        return SX.call2(getattr(o, name), *a, **k)

    @staticmethod
    def call2(f, /, *a, **k):
        t = type(f)
        if t is types.MethodType or t is types.FunctionType or t is type:
            return SX.call(f, *a, **k)
        if t is _B:
            s = getattr(f, '__self__', None)
            if isinstance(s, types.ModuleType) or s is None:
                return SX.call(f, *a, **k)
            return f(*a, **k)
        return f(*a, **k)

    @staticmethod
    def eq(a, b):
        ca, cb = a.__class__, b.__class__
        if ca in (list, tuple) and ca is cb and (has_sym(a) or has_sym(b)):
            return mkbool(_deq(a, b))
        if ca is dict and cb is dict and (has_sym(a) or has_sym(b)):
            return mkbool(_deq(a, b))
        return a == b

    @staticmethod
    def ne(a, b):
        ca, cb = a.__class__, b.__class__
        if ca is cb and ca in (list, tuple, dict) and (has_sym(a) or has_sym(b)):
            return not_(mkbool(_deq(a, b)))
        return a != b

    @staticmethod
    def not_(x):
        if x.__class__ is SymBool:
            return not_(x)
        return not x

    @staticmethod
    def contains(a, b):
        c = b.__class__
        if c is SymStr:
            return contains_str(b, a)
        if c is str:
            return contains_str(b, a) if is_sym(a) else a in b
        if isinstance(b, _SetBase):
            return b.has(a)
        if c is rx._LazyGroups:
            return a in b
        if isinstance(b, dict) or c is _DK:
            if not has_sym(a) and not _symdict(b):
                return a in b
            return mkbool(core.Or([_deq(a, x) for x in b]))
        if c in (list, tuple, set, frozenset):
            if c in (set, frozenset) and not has_sym(a):
                return a in b
            if has_sym(a) or has_sym(b):
                return mkbool(core.Or([_deq(a, x) for x in (sorted(b) if c in (set, frozenset) else b)]))
            return a in b
        if c in (_DV, _DI):
            return mkbool(core.Or([_deq(a, x) for x in b]))
        r = a in b
        return r

    @staticmethod
    def ncontains(a, b):
        r = SX.contains(a, b)
        return not_(r)

    @staticmethod
    def getitem(o, i):
        c = o.__class__
        if c is rx._LazyGroups:
            return o[i]
        if isinstance(o, dict):
            if has_sym(i) or (not dict.__contains__(o, i) if not isinstance(i, (list, dict, set)) else False) and _symdict(o):
                k = dict_find(o, i)
                return o[i if k is _NO else k]
            return o[i]
        if i.__class__ is SymInt:
            i = int(i)
        elif i.__class__ is SymBool:
            i = int(bool(i))
        elif is_sym(i) and c is not type and not isinstance(o, type) and c.__module__ not in ('sx.rx', 'sx.strs'):
            g = getattr(c, '__getitem__', None)
            if not (hasattr(g, '__globals__')):
                i = pinned(i)
        return o[i]

    ref = Ref

    @staticmethod
    def mkdict(pairs):
        d = {}
        for p in pairs:
            if len(p) == 1:
                _dupdate(d, p[0])
                continue
            k, v = p
            kk = dict_find(d, k)
            d[k if kk is _NO else kk] = v
        return d

    mkset = SymSet

    @staticmethod
    def fstr(*parts):
        out = ''
        for p in parts:
            if p.__class__ is str:
                out = out + p
            else:
                out = out + to_text(*p)
        return out

    @staticmethod
    def mod(a, b):
        if isinstance(a, str) and (has_sym(b) or isinstance(b, (tuple, dict))):
            if has_sym(b):
                return strs.mod_(a, b)
            return a % b
        if is_sym(a):
            return pinned(a) % pinned(b)
        return a % b


_DK = type({}.keys())
_DV = type({}.values())
_DI = type({}.items())
_VIEWS = (_DK, _DI)
_OPS = {'__and__': operator.and_, '__or__': operator.or_, '__xor__': operator.xor, '__sub__': operator.sub}


def _dictm(o, name, a, k):
    if name in ('get', 'pop', 'setdefault'):
        key = a[0]
        if has_sym(key) or _symdict(o):
            kk = dict_find(o, key)
            return getattr(o, name)(key if kk is _NO else kk, *a[1:], **k)
        return _NO
    if name in ('update', 'subtract') and isinstance(o, collections.Counter):
        _count(o, a, k, 1 if name == 'update' else -1)
        return None
    if name == 'move_to_end':
        kk = dict_find(o, a[0])
        return o.move_to_end(a[0] if kk is _NO else kk, *a[1:], **k)
    if name == 'update':
        for x in a:
            _dupdate(o, x)
        _dupdate(o, k)
        return None
    if name == '__contains__':
        return SX.contains(a[0], o)
    if name == '__getitem__':
        return SX.getitem(o, a[0])
    if name == '__setitem__':
        Ref(o, a[0]).v = a[1]
        return None
    return _NO


# ---------------------------------------------------------- functools shim

class CacheInfo(tuple):
    pass


def make_cache(enabled=True):
    class Cached:
        """memoisation as functools.cache does it (keys compared structurally)"""

        def __init__(self, f):
            self.__wrapped__ = f
            self.__name__ = getattr(f, '__name__', '?')
            self.__doc__ = getattr(f, '__doc__', None)
            self.c = {}
            self.s = []

        def __call__(self, *a, **k):
            if not enabled:
                return self.__wrapped__(*a, **k)
            for x in list(a) + list(k.values()):
                if x.__class__ in (list, dict, SymSet, set):
                    raise TypeError("unhashable type: '%s'" % _type(x).__name__)
            key = (a, tuple(k.items()))
            if not _key_sym(key):
                if key in self.c:
                    return self.c[key]
                for kk, r in self.s:
                    if branch(_deq(kk, key)):
                        return r
                r = self.__wrapped__(*a, **k)
                self.c[key] = r
                return r
            for kk, r in list(self.c.items()) + self.s:
                if branch(_deq(kk, key)):
                    return r
            r = self.__wrapped__(*a, **k)
            self.s.append((key, r))
            return r

        def __get__(self, obj, cls=None):
            if obj is None:
                return self
            return BoundCached(self, obj)

        def cache_clear(self):
            self.c.clear()
            del self.s[:]

        def cache_info(self):
            return (0, 0, None, len(self.c) + len(self.s))

    class BoundCached:
        def __init__(self, c, obj):
            self.c, self.obj = c, obj
            self.__wrapped__ = c.__wrapped__
            self.__name__ = c.__name__
            self.__self__ = obj

        def __call__(self, *a, **k):
            return self.c(self.obj, *a, **k)

        def cache_clear(self):
            self.c.cache_clear()

        def cache_info(self):
            return self.c.cache_info()

    return Cached


def _key_sym(x):
    c = x.__class__
    if c is tuple:
        return any(_key_sym(y) for y in x)
    if c is SymFrozen:
        return any(_key_sym(y) for y in x.elems())
    return c in SYM


def make_functools(cache_enabled=True):
    m = types.ModuleType('functools')
    for n in dir(functools):
        if not n.startswith('__'):
            setattr(m, n, getattr(functools, n))
    C = make_cache(cache_enabled)
    m.cache = C

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return C(maxsize)
        return C
    m.lru_cache = lru_cache
    m.reduce = lambda f, it, *a: functools.reduce(_wrapf(f), it, *a)

    class partial:
        def __init__(self, f, *a, **k):
            self.func, self.args, self.keywords = f, a, k

        def __call__(self, *a, **k):
            return SX.call(self.func, *(self.args + a), **{**self.keywords, **k})
    m.partial = partial
    return m


# -------------------------------------------------------------- other shims

def make_hashlib():
    m = types.ModuleType('hashlib')

    def one(n):
        def f(data=None, **k):
            return HashObj(n, data)
        return f
    for n in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5', 'blake2b', 'blake2s', 'sha3_256', 'sha3_512'):
        setattr(m, n, one(n))
    m.new = lambda n, data=None, **k: HashObj(n, data)
    return m


_json_cache = {}


def make_json(world):
    m = types.ModuleType('json')
    for n in dir(json):
        if not n.startswith('__'):
            setattr(m, n, getattr(json, n))

    def load(fp, **k):
        t = fp.read()
        return loads(t, **k)

    def loads(t, **k):
        if k:
            return json.loads(pinned(t), **k)
        if is_sym(t):
            t = pinned(t)
        s = _json_cache.get(t)
        if s is None:
            s = _json_cache[t] = json.loads(t)
        return _copyjson(s)
    m.load, m.loads = load, loads
    m.dumps = lambda o, **k: Opaque(('json', freeze(o), tuple(sorted(k)))) if has_sym(o) else json.dumps(o, **k)
    return m


def _copyjson(x):
    if x.__class__ is dict:
        return {k: _copyjson(v) for k, v in x.items()}
    if x.__class__ is list:
        return [_copyjson(v) for v in x]
    return x


def make_sys(world):
    m = types.ModuleType('sys')
    m.__dict__.update({k: v for k, v in sys.__dict__.items() if not k.startswith('__')})
    m.modules = world.modules
    m.stderr = m.stdout = io.StringIO()
    return m


# ------------------------------------------------------------------- stdlib

STDLIB_SRC = {}


def stdlib_source(name):
    s = STDLIB_SRC.get(name)
    if s is None:
        import importlib.util
        p = importlib.util.find_spec(name).origin
        if not p or not p.endswith('.py'):
            import sysconfig
            p = os.path.join(sysconfig.get_path('stdlib'), *name.split('.')) + '.py'
        with open(p) as f:
            s = STDLIB_SRC[name] = (f.read(), p)
    return s


TABLE.update({operator.mod: SX.mod, operator.contains: lambda a, b: SX.contains(b, a), operator.getitem: SX.getitem, operator.not_: SX.not_, operator.eq: SX.eq, operator.ne: SX.ne,
              operator.truth: _bool})


class World:
    """one fresh set of modules (per path)"""

    def __init__(self, roots, fs):
        self.roots = roots              # package name -> directory of its source
        self.fs = fs
        self.modules = {}
        self.funcs = None
        self.shims = {}
        self.shims['regex'] = self.shims['re'] = rx.make_module('regex')
        self.shims['regex.regex'] = self.shims['regex']
        self.shims['functools'] = make_functools()
        self.shims['hashlib'] = make_hashlib()
        self.shims['json'] = make_json(self)
        self.shims['sys'] = make_sys(self)
        from . import vfs
        vfs.install(self)
        self.builtins = self._builtins()

    def _builtins(self):
        b = types.ModuleType('builtins')
        b.__dict__.update(builtins.__dict__)
        b.__import__ = self._import
        b.open = self.fs.open
        b.print = _print
        return b.__dict__

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top in self.roots:
            m = self.load(name)
            if fromlist:
                for f in (fromlist if hasattr(m, '__path__') else ()):
                    if not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ImportError:
                            pass
                return m
            return self.modules[top]
        if name in self.shims:
            if fromlist or '.' not in name:
                return self.shims[name]
            return self.shims[name.split('.')[0]]
        if name in ('urllib.parse', 'textwrap', 'fnmatch', 'posixpath', 'genericpath', 'shlex'):
            m = self.stdlib(name)
            if fromlist or '.' not in name:
                return m
            p = types.ModuleType(top)
            setattr(p, name.split('.')[1], m)
            return p
        if name == 'posix':
            m = types.ModuleType('posix')
            return m
        return __import__(name, None, None, fromlist, 0)

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent, _, last = name.rpartition('.')
        if parent:
            pm = self.load(parent)
            base = pm.__path__[0]
        else:
            base = self.roots[name][0]
        p = os.path.join(base, last if parent else name)
        if os.path.isdir(p):
            f, ispkg = os.path.join(p, '__init__.py'), True
        else:
            f, ispkg = p + '.py', False
        if not os.path.exists(f):
            raise ImportError('No module named %r' % name)
        src = source_text(f)
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [p]
        self.modules[name] = m
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_sx_'] = SX
        try:
            exec(compile_source(src, f), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent:
            setattr(pm, last, m)
        return m

    def stdlib(self, name):
        m = _stdlib.get(name)
        if m is None:
            src, f = stdlib_source(name)
            m = types.ModuleType(name)
            m.__file__ = f
            _stdlib[name] = m
            b = types.ModuleType('builtins')
            b.__dict__.update(builtins.__dict__)
            shims = {'re': rx.make_module('re'), 'functools': make_functools(False)}
            from . import vfs
            shims['os'] = vfs.OSProxy()

            def imp(n, g=None, l=None, fl=(), lv=0):
                if n in shims:
                    return shims[n]
                if n in ('genericpath', 'posixpath', 'fnmatch'):
                    return self.stdlib(n)
                if n == 'posix':
                    return types.ModuleType('posix')
                return __import__(n, g, l, fl, lv)
            b.__import__ = imp
            m.__dict__['__builtins__'] = b.__dict__
            m.__dict__['_sx_'] = SX
            oh, _SetBase.order_hook, _SetBase.hash_hook = (_SetBase.order_hook, _SetBase.hash_hook), None, None
            try:
                exec(compile_source(src, f), m.__dict__)
            finally:
                _SetBase.order_hook, _SetBase.hash_hook = oh
        return m


_stdlib = {}
_src = {}


def source_text(f):
    s = _src.get(f)
    if s is None:
        with open(f, encoding='utf-8') as i:
            s = _src[f] = i.read()
    return s
