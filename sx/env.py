"""Symbolic environment handed to harnesses, and execution of one path."""
import importlib
import json
import os
import traceback

from . import conc, core, instr, rx, strs, vfs
from .core import Ctx, EngineError, Hang, PathEnd, Stats, Unsupported, branch
from .strs import SymBool, SymInt, SymStr, _SetBase, bnode, mkbool, mkint, tob

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DATA_OK = (os.path.join(REPO, 'oelint_parser') + '/',)


class Stop(BaseException):
    """an assertion failed on this path"""


class SymEnv:
    symbolic = True

    def __init__(self, ctx, world, fs, root, known=()):
        self.ctx, self.world, self.fs, self.root = ctx, world, fs, root
        self.decl = {}
        self.fails = []
        self.covers = []
        self.checks = 0
        self.known = set(known)
        self._ops = 0

    # -- inputs
    def _reg(self, key, val):
        if key in self.decl:
            return self.decl[key]
        self.decl[key] = val
        return val

    def str(self, name, n, alpha):
        key = 's:' + name
        if key in self.decl:
            return self.decl[key]
        mask = core.mask_of(alpha)
        if len(alpha) == 1:
            v = alpha * n
        else:
            v = strs.mk(tuple(core.char_var('%s.%d' % (name, i), mask) for i in range(n)))
        return self._reg(key, v)

    def bool(self, name):
        key = 'b:' + name
        if key in self.decl:
            return self.decl[key]
        v = core.int_var(name, 0, 1)
        return self._reg(key, SymBool(core.Not(core.Eq0(core.lin(0, [(v, 1)])))))

    def int(self, name, lo, hi):
        key = 'i:' + name
        if key in self.decl:
            return self.decl[key]
        return self._reg(key, mkint(core.lin(0, [(core.int_var(name, lo, hi), 1)])))

    def choice(self, name, options):
        key = 'c:' + name
        if key not in self.decl:
            self._reg(key, mkint(core.lin(0, [(core.int_var(name, 0, len(options) - 1), 1)])) if len(options) > 1 else 0)
        return options[int(self.decl[key])]

    # -- claims
    def assume(self, c):
        self.ctx.assume(bnode(tob(c)))

    def check(self, c, msg):
        self.checks += 1
        n = bnode(tob(c))
        if self.ctx.pos < len(self.ctx.prefix):
            return
        m = self.ctx.can_fail(n)
        if m is not None:
            self.fails.append((msg, m if n is not False else dict(self.ctx.model)))
            raise Stop()

    def cover(self, label):
        self.covers.append(label)

    def finding(self, fid, c=True):
        return fid in self.known and bool(c)

    # -- world
    def mod(self, name):
        return self.world.load(name)

    def path(self, rel=''):
        return self.root + ('/' + rel if len(rel) else '')

    def write(self, rel, content, flag=True):
        self.fs.write(self.path(rel), content, flag)

    def mkdir(self, rel, flag=True):
        self.fs.mkdir(self.path(rel), flag)

    def remove(self, rel):
        self.fs.remove(self.path(rel))

    def seen(self, x):
        """something only the real runs observe (compared between hash seeds)"""

    def timeouts(self, name, limit, most=None):
        """the first `limit` evaluations of expressions may time out, at most `most` of them"""
        left = [limit if most is None else most]

        def decide(kind):
            i = self._ops
            self._ops += 1
            if i >= limit or not left[0]:
                return False
            r = bool(self.bool('%s.%d' % (name, i)))
            if r:
                left[0] -= 1
            return r
        rx._faults = decide

    def permute(self, on=True):
        """set iteration and directory listings in an arbitrary (symbolic) order"""
        if not on:
            _SetBase.order_hook = _SetBase.hash_hook = None
            return
        orders = {}
        same = {}
        hashes = []

        def hh(kind, x):
            for k, y, v in hashes:
                if k == kind and (y is x if kind == 'id' else y.__class__ is x.__class__ and y == x):
                    return v
            n = self.ctx.counter['hash'] = self.ctx.counter.get('hash', 0) + 1
            v = mkint(core.lin(0, [(core.int_var('hash.%d' % n, 0, 15), 1)]))
            for k, y, w in hashes:
                if k == kind:
                    self.assume(v != w)
            hashes.append((kind, x, v))
            return v
        _SetBase.hash_hook = hh

        def hook(els, owner):
            if owner is not None:
                key = (id(owner), len(els))
                # the order of one unchanged set is stable
                o = orders.get(key)
                if o is not None and o[0] is owner and len(o[1]) == len(els) and all(any(x is y for y in els) for x in o[1]):
                    return list(o[1])
                # sets made of the same concrete elements in the same order have the same order within one process
                ck = tuple(els) if all(x.__class__ in (str, int) for x in els) else None
                if ck is not None and ck in same:
                    return list(same[ck])
            out = []
            rest = list(els)
            while len(rest) > 1:
                k = self.ctx.counter['perm'] = self.ctx.counter.get('perm', 0) + 1
                v = mkint(core.lin(0, [(core.int_var('perm.%d' % k, 0, len(rest) - 1), 1)]))
                out.append(rest.pop(int(v)))
            out += rest
            if owner is not None:
                orders[key] = (owner, list(out))
                if ck is not None:
                    same[ck] = list(out)
            return out
        _SetBase.order_hook = hook


def conc_value(x, model, memo):
    """value of a symbolic term under a model"""
    c = x.__class__
    if c is SymStr:
        return ''.join(chr(core.val(i, model)) for i in x.cs)
    if c is SymInt:
        return core.eval_lin(x.l, model, memo)
    if c is SymBool:
        return core.evaluate(x.n, model, memo)
    if c in (list, tuple):
        return c(conc_value(y, model, memo) for y in x)
    if isinstance(x, dict):
        return {_h(conc_value(k, model, memo)): conc_value(v, model, memo) for k, v in x.items()}
    if isinstance(x, _SetBase):
        return {_h(conc_value(y, model, memo)) for y in x.elems()}
    if isinstance(x, (set, frozenset)):
        return {_h(conc_value(y, model, memo)) for y in x}
    if hasattr(x, 'data') and isinstance(getattr(x, 'data'), list):
        return conc_value(x.data, model, memo)
    return x


def _h(x):
    return tuple(x) if isinstance(x, list) else x


def inputs_of(decl, model):
    memo = {}
    out = {}
    for k, v in decl.items():
        r = conc_value(v, model, memo)
        out[k] = int(r) if isinstance(r, bool) else r
    return out


def ser_model(m):
    return [(v.name, v.dom, None, x) if v.__class__ is core.Var else (v.name, v.lo, v.hi, x) for v, x in m.items()]


def deser_model(l):
    return {(core.char_var(n, a) if b is None else core.int_var(n, a, b)): x for n, a, b, x in l}


class PathResult:
    __slots__ = ('end', 'fails', 'pending', 'covers', 'obs', 'inputs', 'error', 'pinned', 'checks', 'trace', 'depth', 'incomplete')


def run_path(unit, prefix, model, stats, root, known=(), max_ticks=60000, funcs=None):
    """unit = (module, harness, params)"""
    mod, harness, params = unit
    ctx = Ctx(prefix, model, stats, max_ticks)
    inc0 = stats.incomplete
    Ctx.cur = ctx
    rx._faults = None
    _SetBase.order_hook = _SetBase.hash_hook = None
    fs = vfs.FS(root, DATA_OK)
    world = instr.World({'oelint_parser': (REPO,), 'props': (VERIF,)}, fs)
    vfs.OSProxy.cur = world
    env = SymEnv(ctx, world, fs, root, known)
    res = PathResult()
    res.fails, res.obs, res.inputs, res.error, res.trace = [], None, None, None, None
    try:
        h = getattr(world.load(mod), harness)
        r = h(env, *params)
        res.end = 'ok'
        memo = {}
        res.obs = conc.norm(conc_value(r, ctx.model, memo))
    except PathEnd:
        res.end = 'cut'
    except Stop:
        res.end = 'fail'
    except Hang:
        res.end = 'hang'
        env.fails.append(('hang', dict(ctx.model)))
    except EngineError as e:
        res.end = 'error'
        res.error = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8))
    except RecursionError:
        res.end = 'exc'
        env.fails.append(('exception:RecursionError', dict(ctx.model)))
    except Exception as e:
        res.end = 'exc'
        res.trace = traceback.format_exc(limit=-8)
        env.fails.append(('exception:%s' % type(e).__name__, dict(ctx.model)))
    finally:
        rx._faults = None
        _SetBase.order_hook = _SetBase.hash_hook = None
        Ctx.cur = None
    stats.paths += 1
    stats.ticks += ctx.ticks
    res.pending = ctx.pending
    res.covers = env.covers
    res.checks = env.checks
    res.pinned = ctx.pinned
    res.depth = len(ctx.trace)
    res.incomplete = stats.incomplete > inc0
    if ctx.pos < len(ctx.prefix) and res.end in ('ok', 'fail') and res.error is None:
        res.error = 'prefix not consumed (%d of %d)' % (ctx.pos, len(ctx.prefix))
    for i, (msg, m) in enumerate(env.fails):
        res.fails.append((msg, inputs_of(env.decl, m)))
    if res.end != 'cut':
        res.inputs = inputs_of(env.decl, ctx.model)
    return res
