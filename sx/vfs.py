"""Virtual file system seen by instrumented code: symbolic names, contents and
existence flags; never touches the real file system (except for data files that
belong to the package under test)."""
import io
import os
import posixpath
import types

from . import core, rx, strs
from .core import And, EqC, In, Not, Or, Unsupported, branch
from .strs import SymStr, _SetBase, bnode, chars_of, eq_chars, has_sym, inset, is_sym, mk, mkbool, tob

SLASH = 47


def comps(path):
    """components of a path (forks on symbolic slashes/dots); None for ''"""
    cs = chars_of(path)
    parts = [[]]
    for c in cs:
        if (c == SLASH) if c.__class__ is int else branch(inset(c, 1 << SLASH)):
            parts.append([])
        else:
            parts[-1].append(c)
    return [tuple(p) for p in parts]


def _is(p, lit):
    return branch(eq_chars(p, tuple(map(ord, lit))))


class Entry:
    def __init__(self, parts, content, flag):
        self.parts, self.content, self.flag = parts, content, flag


class FS:
    def __init__(self, root, real_ok=()):
        self.root = root
        self.entries = []
        self.dirs = []            # explicitly created directories (parts, flag)
        self.real_ok = tuple(real_ok)
        self.cwd = root
        self.reads = []

    # -- building
    def write(self, path, content, flag=True):
        parts = [p for p in comps(path) if p]
        f = bnode(flag)
        for e in self.entries:
            if e.flag is True and f is True and branch(_parts_eq(e.parts, parts)):
                e.content = content
                return
        self.entries.append(Entry(tuple(parts), content, f))

    def mkdir(self, path, flag=True):
        self.dirs.append((tuple(p for p in comps(path) if p), bnode(flag)))

    def remove(self, path):
        parts = tuple(p for p in comps(path) if p)
        for e in list(self.entries):
            if branch(_parts_eq(e.parts, parts)):
                self.entries.remove(e)

    # -- resolving
    def resolve(self, path):
        """canonical component tuple, plus whether the path requires a directory"""
        if not len(path):
            return None, False
        raw = comps(path)
        if len(raw[0]) == 0:
            out = []
        else:
            out = [tuple(map(ord, x)) for x in self.cwd.split('/') if x]
        must = False
        for i, p in enumerate(raw):
            last = i == len(raw) - 1
            if not p:
                must = last and i > 0
                continue
            if len(p) == 1 and _is(p, '.'):
                must = last
                continue
            if len(p) == 2 and _is(p, '..'):
                if not branch(self._isdir(out)):
                    return None, False
                if out:
                    out.pop()
                must = last
                continue
            out.append(p)
        return tuple(out), must

    def _isfile(self, parts):
        return Or([And([e.flag, _parts_eq(e.parts, parts)]) for e in self.entries])

    def _isdir(self, parts):
        n = len(parts)
        root = [tuple(map(ord, x)) for x in self.root.split('/') if x]
        alts = [_parts_eq(root[:n], parts)] if n <= len(root) else []
        alts += [And([e.flag, _parts_eq(e.parts[:n], parts)]) for e in self.entries if len(e.parts) > n]
        alts += [And([f, _parts_eq(d[:n], parts)]) for d, f in self.dirs if len(d) >= n]
        return Or(alts)

    def isfile(self, path):
        parts, must = self.resolve(path)
        if parts is None or must:
            return False
        return mkbool(self._isfile(parts))

    def isdir(self, path):
        parts, must = self.resolve(path)
        if parts is None:
            return False
        return mkbool(self._isdir(parts))

    def exists(self, path):
        parts, must = self.resolve(path)
        if parts is None:
            return False
        if must:
            return mkbool(self._isdir(parts))
        return mkbool(Or([self._isfile(parts), self._isdir(parts)]))

    def read(self, path):
        parts, must = self.resolve(path)
        if parts is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        for e in self.entries:
            g = And([e.flag, _parts_eq(e.parts, parts)])
            if branch(g):
                if must:
                    raise NotADirectoryError(20, 'Not a directory', path)
                return e.content
        if branch(self._isdir(parts)):
            raise IsADirectoryError(21, 'Is a directory', path)
        for n in range(1, len(parts)):
            if branch(self._isfile(parts[:n])):
                raise NotADirectoryError(20, 'Not a directory', path)
        raise FileNotFoundError(2, 'No such file or directory', path)

    def open(self, path, mode='r', *a, **k):
        if isinstance(path, PurePath):
            path = path._s
        if not is_sym(path):
            p = str(path) if not isinstance(path, (str, int)) else path
            if isinstance(p, str) and p.startswith(self.real_ok) and self.real_ok:
                return io.open(p, mode, *a, **k)
        else:
            for c in path.cs:
                if c.__class__ is not int and branch(inset(c, 1)):
                    raise ValueError('embedded null byte')
        if 'w' in mode or 'a' in mode or '+' in mode or 'x' in mode:
            raise Unsupported('writing')
        data = self.read(path)
        return File(data, 'b' in mode, path)

    # -- listing
    def children(self, parts):
        """names below a directory in listing order (forks on flags, names and duplicates)"""
        n = len(parts)
        out = []
        for p, f in [(e.parts, e.flag) for e in self.entries] + self.dirs:
            if len(p) <= n:
                continue
            if not branch(And([f, _parts_eq(p[:n], parts)])):
                continue
            nm = mk(p[n])
            if not any(branch(strs._deq(nm, x)) for x in out):
                out.append(nm)
        h = _SetBase.order_hook
        if h is not None and len(out) > 1:
            out = h(out, None)
        return out

    def listdir(self, path='.'):
        parts, _ = self.resolve(path)
        if parts is None or not branch(self._isdir(parts)):
            raise FileNotFoundError(2, 'No such file or directory', path)
        return self.children(parts)

    def glob(self, pattern, recursive=False, **kw):
        pc = comps(pattern)
        magic = core.mask_of('*?[')
        absolute = len(pc[0]) == 0
        bases = [('/' if absolute else '', () if absolute else tuple(tuple(map(ord, x)) for x in self.cwd.split('/') if x))]
        parts = pc[1:] if absolute else pc
        for i, p in enumerate(parts):
            last = i == len(parts) - 1
            hasm = Or([inset(c, magic) for c in p])
            new = []
            ism = branch(hasm)
            if ism and recursive and len(p) == 2 and _is(p, '**'):
                raise Unsupported('recursive glob')
            for txt, b in bases:
                if not ism:
                    if not p:
                        if last:
                            if branch(self._isdir(b)):
                                new.append((txt, b))
                        else:
                            new.append((txt + '/' if not txt.endswith('/') else txt, b))
                        continue
                    nb = _step(b, p)
                    if last:
                        if branch(Or([self._isfile(nb), self._isdir(nb)])):
                            new.append((txt + mk(p), nb))
                    else:
                        new.append((txt + mk(p) + '/', nb))
                    continue
                if not branch(self._isdir(b)):
                    continue
                pat = rx.compile(_translate(p), rx.S)
                hidden = branch(inset(p[0], 1 << 46)) if p else False
                for nm in self.children(b):
                    c0 = chars_of(nm)[0]
                    if not hidden and branch(inset(c0, 1 << 46)):
                        continue
                    if pat.fullmatch(nm) is not None:
                        nb = b + (chars_of(nm),)
                        if not last and not branch(self._isdir(nb)):
                            continue
                        new.append((txt + nm + ('' if last else '/'), nb))
            bases = new
        return [t for t, _ in bases]

    def walk(self, top, topdown=True, **k):
        parts, _ = self.resolve(top)
        if parts is None or not branch(self._isdir(parts)):
            return
        dirs, files = [], []
        for nm in self.children(parts):
            (dirs if branch(self._isdir(parts + (chars_of(nm),))) else files).append(nm)
        yield top, dirs, files
        for d in dirs:
            yield from self.walk(top + '/' + d)


def _step(b, p):
    if len(p) == 1 and _is(p, '.'):
        return b
    if len(p) == 2 and _is(p, '..'):
        return b[:-1]
    return b + (p,)


def _translate(p):
    """regular expression of one glob component (symbolic characters allowed)"""
    out = ''
    i = 0
    while i < len(p):
        c = p[i]
        if branch(inset(c, 1 << 42)):
            out = out + '.*'
        elif branch(inset(c, 1 << 63)):
            out = out + '.'
        elif branch(inset(c, 1 << 91)):
            j = i + 1
            if j < len(p) and branch(inset(p[j], 1 << 33)):
                j += 1
            if j < len(p) and branch(inset(p[j], 1 << 93)):
                j += 1
            while j < len(p) and not branch(inset(p[j], 1 << 93)):
                j += 1
            if j >= len(p):
                out = out + '\\['
            else:
                body = p[i + 1:j]
                neg = ''
                if body and branch(inset(body[0], 1 << 33)):
                    neg, body = '^', body[1:]
                s = ''
                for x in body:
                    s = s + (('\\' + mk((x,))) if branch(inset(x, core.mask_of('\\^[]&~|'))) else mk((x,)))
                out = out + '[' + neg + s + ']'
                i = j
        else:
            out = out + rx.escape(mk((c,)))
        i += 1
    return out


def _parts_eq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        e = eq_chars(x, y)
        if e is False:
            return False
        out.append(e)
    return And(out)


class File:
    def __init__(self, data, binary, name):
        if binary:
            raise Unsupported('binary read')
        self.data, self.name, self.pos, self.closed = data, name, 0, False
        self.ls = None

    def _lines(self):
        if self.ls is None:
            out = []
            d = self.data
            cs = chars_of(d)
            last = 0
            for i, c in enumerate(cs):
                if (c == 10) if c.__class__ is int else branch(inset(c, 1 << 10)):
                    out.append(mk(cs[last:i + 1]))
                    last = i + 1
            if last < len(cs):
                out.append(mk(cs[last:]))
            self.ls = out
            self.li = 0
        return self.ls

    def read(self, n=-1):
        if self.ls is not None:
            r = self.ls[self.li:]
            self.li = len(self.ls)
            return SymStr.join(SymStr(()), r) if r else ''
        cs = chars_of(self.data)
        r = mk(cs[self.pos:]) if n is None or n < 0 else mk(cs[self.pos:self.pos + n])
        self.pos += len(r)
        return r

    def readlines(self, *a):
        ls = self._lines()
        r = ls[self.li:]
        self.li = len(ls)
        return r

    def readline(self, *a):
        ls = self._lines()
        if self.li >= len(ls):
            return ''
        self.li += 1
        return ls[self.li - 1]

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not len(r):
            raise StopIteration
        return r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True


# ----------------------------------------------------------------- os shims

_PURE = ('join', 'dirname', 'basename', 'splitext', 'normpath', 'isabs', 'split', 'commonprefix', 'commonpath', 'splitroot',
         'splitdrive', 'normcase')


class OSProxy:
    """`os` for instrumented posixpath & co: bound to the current path's world"""
    cur = None
    sep, altsep, curdir, pardir, extsep, pathsep, devnull, name = '/', None, '.', '..', '.', ':', '/dev/null', 'posix'

    def fspath(self, p):
        if is_sym(p):
            return p
        return os.fspath(p)

    def getcwd(self):
        return OSProxy.cur.fs.cwd

    def __getattr__(self, n):
        return getattr(os, n)


class PathMod:
    """os.path: stdlib source, instrumented; native for concrete arguments"""

    def __init__(self, world):
        self._w = world
        self._m = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        w = self._w
        fs = w.fs
        if n in ('exists', 'lexists'):
            return fs.exists
        if n == 'isfile':
            return fs.isfile
        if n == 'isdir':
            return fs.isdir
        if n == 'islink' or n == 'ismount':
            return lambda p: False
        if n == 'abspath' or n == 'realpath':
            def ab(p, **k):
                if not self.isabs(p):
                    p = self.join(fs.cwd, p)
                return self.normpath(p)
            return ab
        if n == 'relpath':
            def rel(p, start=None):
                if not has_sym(p) and not has_sym(start):
                    return posixpath.relpath(self.abspath(p), self.abspath(start or fs.cwd))
                return self._sym('relpath')(p, start if start is not None else fs.cwd)
            return rel
        if n == 'expanduser' or n == 'expandvars':
            return lambda p: p
        if n == 'getmtime' or n == 'getsize':
            raise Unsupported('os.path.' + n)
        real = getattr(posixpath, n)
        if not callable(real):
            return real

        def f(*a, **k):
            a = tuple(x._s if isinstance(x, PurePath) else x for x in a)
            if not has_sym(a) and not has_sym(k):
                return real(*a, **k)
            return self._sym(n)(*a, **k)
        return f

    def _sym(self, n):
        if self._m is None:
            self._m = self._w.stdlib('posixpath')
        return getattr(self._m, n)


class OSMod:
    def __init__(self, world):
        self._w = world
        self.path = PathMod(world)
        self.sep, self.curdir, self.pardir, self.linesep, self.extsep, self.pathsep = '/', '.', '..', '\n', '.', ':'
        self.environ = dict(os.environ)
        self.PathLike = os.PathLike
        self.name = 'posix'
        self.O_RDONLY = os.O_RDONLY
        self.R_OK, self.F_OK, self.W_OK, self.X_OK = os.R_OK, os.F_OK, os.W_OK, os.X_OK

    def fspath(self, p):
        return p if is_sym(p) else os.fspath(p)

    def getcwd(self):
        return self._w.fs.cwd

    def listdir(self, p='.'):
        return self._w.fs.listdir(p)

    def walk(self, *a, **k):
        return self._w.fs.walk(*a, **k)

    def access(self, p, mode=0, **k):
        return self._w.fs.exists(p)

    def getenv(self, k, d=None):
        return self.environ.get(k, d)

    def scandir(self, p='.'):
        fs = self._w.fs
        out = []
        for nm in fs.listdir(p):
            out.append(DirEntry(fs, p, nm))
        return _Scan(out)

    def stat(self, p, **k):
        raise Unsupported('os.stat')

    def __getattr__(self, n):
        v = getattr(os, n)
        if callable(v) and not isinstance(v, type):
            raise Unsupported('os.' + n)
        return v


class _Scan(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class DirEntry:
    def __init__(self, fs, d, nm):
        self.name = nm
        self.path = d + ('' if d.endswith('/') else '/') + nm
        self._fs = fs

    def is_dir(self, **k):
        return self._fs.isdir(self.path)

    def is_file(self, **k):
        return self._fs.isfile(self.path)


class PurePath:
    """small pathlib.Path stand-in on top of os.path"""
    world = None

    def __init__(self, *a):
        p = self._o().path
        s = ''
        for x in a:
            x = x._s if isinstance(x, PurePath) else x
            s = p.join(s, x) if len(s) else x
        self._s = s if not len(s) else self._norm(s)

    @classmethod
    def _o(cls):
        return OSProxy.cur.shims['os']

    def _norm(self, s):
        out = [mk(c) for i, c in enumerate(comps(s)) if len(c) and not (len(c) == 1 and _is(c, '.'))]
        a = '/' if branch(inset(chars_of(s)[0], 1 << SLASH)) else ''
        r = a
        for i, c in enumerate(out):
            r = r + ('/' if i else '') + c
        return r if len(r) else '.'

    def __str__(self):
        return self._s

    def __fspath__(self):
        return self._s

    def __truediv__(self, o):
        return PurePath(self, o)

    def __rtruediv__(self, o):
        return PurePath(o, self)

    def joinpath(self, *a):
        return PurePath(self, *a)

    def __eq__(self, o):
        return isinstance(o, PurePath) and mkbool(strs._deq(self._s, o._s))

    def __hash__(self):
        return hash(self._s)

    @property
    def name(self):
        return self._o().path.basename(self._s)

    @property
    def suffix(self):
        return self._o().path.splitext(self.name)[1]

    @property
    def stem(self):
        return self._o().path.splitext(self.name)[0]

    @property
    def parent(self):
        return PurePath(self._o().path.dirname(self._s) or '.')

    @property
    def parents(self):
        out = []
        p = self
        while True:
            q = p.parent
            if tob(q == p):
                return out
            out.append(q)
            p = q

    @property
    def parts(self):
        return (('/',) if self.is_absolute() else ()) + tuple(mk(c) for c in comps(self._s) if c)

    def exists(self):
        return OSProxy.cur.fs.exists(self._s)

    def is_file(self):
        return OSProxy.cur.fs.isfile(self._s)

    def is_dir(self):
        return OSProxy.cur.fs.isdir(self._s)

    def is_absolute(self):
        return self._o().path.isabs(self._s)

    def absolute(self):
        return PurePath(self._o().path.abspath(self._s))

    resolve = absolute

    def read_text(self, *a, **k):
        return OSProxy.cur.fs.open(self._s).read()

    def open(self, *a, **k):
        return OSProxy.cur.fs.open(self._s, *a, **k)

    def glob(self, pat):
        return [PurePath(x) for x in OSProxy.cur.fs.glob(self._s + '/' + pat)]

    def iterdir(self):
        return [PurePath(self, x) for x in OSProxy.cur.fs.listdir(self._s)]

    def as_posix(self):
        return self._s

    def with_suffix(self, s):
        return PurePath(self._o().path.splitext(self._s)[0] + s)


def install(world):
    osm = OSMod(world)
    world.shims['os'] = osm
    world.shims['os.path'] = world.shims['posixpath'] = osm.path
    g = types.ModuleType('glob')
    g.glob = world.fs.glob
    g.iglob = lambda *a, **k: iter(world.fs.glob(*a, **k))

    def gesc(p):
        out = ''
        for ch in p:
            out = out + ('[' + ch + ']' if branch(inset(chars_of(ch)[0], core.mask_of('*?['))) else ch)
        return out
    g.escape = gesc
    g.has_magic = lambda p: mkbool(Or([inset(c, core.mask_of('*?[')) for c in chars_of(p)]))
    world.shims['glob'] = g
    pl = types.ModuleType('pathlib')
    pl.Path = pl.PurePath = pl.PosixPath = pl.PurePosixPath = PurePath
    world.shims['pathlib'] = pl
    iom = types.ModuleType('io')
    iom.__dict__.update({k: v for k, v in io.__dict__.items() if not k.startswith('__')})
    iom.open = world.fs.open
    world.shims['io'] = iom
