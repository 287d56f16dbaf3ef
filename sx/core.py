"""Formula layer, path exploration and solver interface of the symbolic executor.

A *path* of the harness is one sequence of branch outcomes.  Branch conditions
are formulas over finite-domain character variables and mathematical-integer
variables; z3 decides which outcomes are feasible and whether an assertion can
fail on a path.  Exploration is by deterministic re-execution.
"""
import time

import z3


class EngineError(BaseException):
    """The executor itself is wrong or met something it cannot model."""


class Unsupported(EngineError):
    pass


class PathEnd(BaseException):
    """The current path stops (assumption false / cut)."""


class Hang(BaseException):
    """Step budget of one path exhausted: non-termination within the bound."""


# ------------------------------------------------------------------ variables

class Var:
    """symbolic character; dom is a bit mask over the code points 0..255"""
    __slots__ = ('name', 'dom', 'z', 'uid')
    table = {}

    def __repr__(self):
        return '<%s>' % self.name


class MapVar:
    """a character computed from a Var by a table (lower(), upper(), ...)"""
    __slots__ = ('base', 'tab', 'dom', 'uid')
    table = {}


class IntVar:
    __slots__ = ('name', 'lo', 'hi', 'z', 'uid')
    table = {}

    def __repr__(self):
        return '<%s>' % self.name


_uid = [0]


def _next():
    _uid[0] += 1
    return _uid[0]


def char_var(name, dom):
    key = (name, dom)
    v = Var.table.get(key)
    if v is None:
        v = Var()
        v.name, v.dom, v.uid = name, dom, _next()
        v.z = z3.BitVec(name, 8)
        Var.table[key] = v
    return v


def map_var(base, tab):
    """tab: tuple of 256 code points"""
    if isinstance(base, MapVar):
        tab = tuple(tab[base.tab[i]] if base.tab[i] < 256 else base.tab[i] for i in range(256))
        base = base.base
    key = (base.uid, tab)
    v = MapVar.table.get(key)
    if v is None:
        v = MapVar()
        v.base, v.tab, v.uid = base, tab, _next()
        d = 0
        for i in bits(base.dom):
            d |= 1 << tab[i]
        v.dom = d
        MapVar.table[key] = v
    return v


def int_var(name, lo, hi):
    key = (name, lo, hi)
    v = IntVar.table.get(key)
    if v is None:
        v = IntVar()
        v.name, v.lo, v.hi, v.uid = name, lo, hi, _next()
        v.z = z3.Int(name)
        IntVar.table[key] = v
    return v


def bits(mask):
    i = 0
    while mask:
        low = mask & -mask
        i = low.bit_length() - 1
        yield i
        mask ^= low


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


ALL = (1 << 256) - 1


# ------------------------------------------------------------------- formulas

class Nd:
    __slots__ = ('k', 'a', 'b', 'z', 'uid', 'vars')

    def __repr__(self):
        return show(self)


_nodes = {}


def _mk(k, a, b=None):
    key = (k, a, b)
    n = _nodes.get(key)
    if n is None:
        n = Nd()
        n.k, n.a, n.b, n.z, n.uid, n.vars = k, a, b, None, _next(), None
        _nodes[key] = n
    return n


def show(n, d=0):
    if n is True or n is False:
        return str(n)
    if n.k == 'in':
        cs = ''.join(chr(i) for i in list(bits(n.b))[:12])
        return '%s in %r' % (n.a.name, cs)
    if n.k == 'eq':
        return '%r==%r' % (n.a, n.b)
    if n.k == 'not':
        return '!(%s)' % show(n.a)
    if n.k == 'le':
        return '(%r <= 0)' % (n.a,)
    if n.k == 'ez':
        return '(%r == 0)' % (n.a,)
    if d > 4:
        return '...'
    return '(' + (' & ' if n.k == 'and' else ' | ').join(show(x, d + 1) for x in n.a) + ')'


def In(v, mask):
    if v.__class__ is MapVar:
        m = 0
        tab = v.tab
        for i in bits(v.base.dom):
            if mask >> tab[i] & 1:
                m |= 1 << i
        return In(v.base, m)
    mask &= v.dom
    if not mask:
        return False
    if mask == v.dom:
        return True
    return _mk('in', v, mask)


def EqC(x, y):
    """equality of two characters (code point ints or (Map)Vars)"""
    if x is y:
        return True
    xi, yi = x.__class__ is int, y.__class__ is int
    if xi and yi:
        return x == y
    if xi:
        return In(y, 1 << x) if x < 256 else False
    if yi:
        return In(x, 1 << y) if y < 256 else False
    if x.__class__ is Var and y.__class__ is Var:
        if x.dom & y.dom == 0:
            return False
        if x.uid > y.uid:
            x, y = y, x
        return _mk('eq', x, y)
    return Or([And([In(x, 1 << c), In(y, 1 << c)]) for c in bits(x.dom & y.dom)])


def Not(n):
    if n is True:
        return False
    if n is False:
        return True
    if n.k == 'not':
        return n.a
    if n.k == 'in':
        return In(n.a, n.a.dom & ~n.b)
    return _mk('not', n)


def And(xs):
    return _nary('and', xs)


def Or(xs):
    return _nary('or', xs)


def _nary(k, xs):
    absorb = k == 'or'
    acc = {}
    ins = {}
    stack = list(xs)
    i = 0
    while i < len(stack):
        x = stack[i]
        i += 1
        if x is absorb:
            return absorb
        if x is True or x is False:
            continue
        if x.k == k:
            stack.extend(x.a)
            continue
        if x.k == 'in':
            v = x.a
            if v.uid in ins:
                m = ins[v.uid][1]
                m = (m | x.b) if absorb else (m & x.b)
                if absorb and m == v.dom:
                    return True
                if not absorb and not m:
                    return False
                ins[v.uid] = (v, m)
            else:
                ins[v.uid] = (v, x.b)
            continue
        acc[x.uid] = x
    for v, m in ins.values():
        x = In(v, m)
        if x is absorb:
            return absorb
        if x is True or x is False:
            continue
        acc[x.uid] = x
    for x in acc.values():
        if x.k == 'not' and x.a.uid in acc:
            return absorb
    if not acc:
        return not absorb
    if len(acc) == 1:
        return next(iter(acc.values()))
    return _mk(k, tuple(acc[u] for u in sorted(acc)))


# ---- linear integer terms: (const, ((term, coef), ...)); term is IntVar or Nd

class Lin:
    __slots__ = ('c', 't', 'uid')
    table = {}

    def __repr__(self):
        return '+'.join(['%d' % self.c] + ['%d*%r' % (k, t) for t, k in self.t])


def lin(c, terms):
    d = {}
    for t, k in terms:
        if t is True:
            c += k
            continue
        if t is False or not k:
            continue
        if t.uid in d:
            d[t.uid] = (t, d[t.uid][1] + k)
        else:
            d[t.uid] = (t, k)
    tt = tuple(d[u] for u in sorted(d) if d[u][1])
    if not tt:
        return c
    key = (c, tuple((t.uid, k) for t, k in tt))
    n = Lin.table.get(key)
    if n is None:
        n = Lin()
        n.c, n.t, n.uid = c, tt, _next()
        Lin.table[key] = n
    return n


def _lt(x):
    """(const, terms) of an int or a Lin"""
    if isinstance(x, Lin):
        return x.c, x.t
    return int(x), ()


def lin_add(x, y, ky=1):
    cx, tx = _lt(x)
    cy, ty = _lt(y)
    return lin(cx + ky * cy, list(tx) + [(t, k * ky) for t, k in ty])


def lin_mul(x, k):
    c, t = _lt(x)
    return lin(c * k, [(a, b * k) for a, b in t])


def lin_range(x):
    c, t = _lt(x)
    lo = hi = c
    for a, k in t:
        l, h = (a.lo, a.hi) if a.__class__ is IntVar else (0, 1)
        lo += min(k * l, k * h)
        hi += max(k * l, k * h)
    return lo, hi


def Le0(x):
    lo, hi = lin_range(x)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    return _mk('le', x)


def Eq0(x):
    lo, hi = lin_range(x)
    if lo == hi == 0:
        return True
    if lo > 0 or hi < 0:
        return False
    return _mk('ez', x)


# ---------------------------------------------------------------- evaluation

def evaluate(n, model, memo):
    if n is True or n is False:
        return n
    r = memo.get(n.uid)
    if r is not None:
        return r
    k = n.k
    if k == 'in':
        r = bool(n.b >> val(n.a, model) & 1)
    elif k == 'eq':
        r = val(n.a, model) == val(n.b, model)
    elif k == 'not':
        r = not evaluate(n.a, model, memo)
    elif k == 'and':
        r = True
        for x in n.a:
            if not evaluate(x, model, memo):
                r = False
                break
    elif k == 'or':
        r = False
        for x in n.a:
            if evaluate(x, model, memo):
                r = True
                break
    elif k == 'le':
        r = eval_lin(n.a, model, memo) <= 0
    else:
        r = eval_lin(n.a, model, memo) == 0
    memo[n.uid] = r
    return r


def _pref(dom):
    for c in 'axbyA0_':
        if dom >> ord(c) & 1:
            return ord(c)
    for i in bits(dom):
        if 33 <= i < 127:
            return i
    return (dom & -dom).bit_length() - 1


def val(v, model):
    if v.__class__ is int:
        return v
    if v.__class__ is MapVar:
        return v.tab[val(v.base, model)]
    r = model.get(v)
    if r is None:
        if v.__class__ is IntVar:
            r = v.lo if v.lo > 0 or v.hi < 0 else 0
        else:
            r = _pref(v.dom)
        model[v] = r
    return r


def eval_lin(x, model, memo):
    if not isinstance(x, Lin):
        return int(x)
    s = x.c
    for t, k in x.t:
        if t.__class__ is IntVar:
            s += k * val(t, model)
        elif evaluate(t, model, memo):
            s += k
    return s


# ---------------------------------------------------------------------- to z3

def _ranges(mask):
    out = []
    start = prev = None
    for i in bits(mask):
        if start is None:
            start = prev = i
        elif i == prev + 1:
            prev = i
        else:
            out.append((start, prev))
            start = prev = i
    if start is not None:
        out.append((start, prev))
    return out


def _z_in(v, mask):
    alts = []
    for lo, hi in _ranges(mask):
        if lo == hi:
            alts.append(v.z == lo)
        elif lo == 0:
            alts.append(z3.ULE(v.z, hi))
        elif hi == 255:
            alts.append(z3.UGE(v.z, lo))
        else:
            alts.append(z3.And(z3.UGE(v.z, lo), z3.ULE(v.z, hi)))
    return alts[0] if len(alts) == 1 else z3.Or(alts)


def to_z3(n):
    if n is True or n is False:
        return z3.BoolVal(n)
    if n.z is not None:
        return n.z
    k = n.k
    if k == 'in':
        co = n.a.dom & ~n.b
        if len(_ranges(co)) < len(_ranges(n.b)):
            r = z3.Not(_z_in(n.a, co))
        else:
            r = _z_in(n.a, n.b)
    elif k == 'eq':
        r = n.a.z == n.b.z
    elif k == 'not':
        r = z3.Not(to_z3(n.a))
    elif k == 'and':
        r = z3.And([to_z3(x) for x in n.a])
    elif k == 'or':
        r = z3.Or([to_z3(x) for x in n.a])
    else:
        e = z3.IntVal(n.a.c)
        for t, c in n.a.t:
            x = t.z if t.__class__ is IntVar else z3.If(to_z3(t), z3.IntVal(1), z3.IntVal(0))
            e = e + c * x
        r = (e <= 0) if k == 'le' else (e == 0)
    n.z = r
    return r


def node_vars(n, out=None, seen=None):
    """all variables below a node (cached as frozenset)"""
    if n is True or n is False:
        return frozenset()
    if n.vars is not None:
        return n.vars
    k = n.k
    if k == 'in':
        r = frozenset([n.a])
    elif k == 'eq':
        r = frozenset([n.a, n.b])
    elif k == 'not':
        r = node_vars(n.a)
    elif k in ('and', 'or'):
        r = frozenset().union(*[node_vars(x) for x in n.a])
    else:
        r = frozenset().union(*[frozenset([t]) if t.__class__ is IntVar else node_vars(t) for t, _ in n.a.t])
    n.vars = r
    return r


# -------------------------------------------------------------------- context

class Stats:
    FIELDS = ('paths', 'queries', 'sat', 'unsat', 'solver_s', 'branches', 'forced', 'asserts',
              'assert_queries', 'assume_cut', 'pins', 'incomplete', 'replays', 'ticks')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Ctx:
    """state of one path"""
    cur = None

    def __init__(self, prefix, model, stats, max_ticks=60000):
        self.prefix = prefix            # decisions to replay
        self.pos = 0
        self.trace = []                 # decisions taken
        self.model = dict(model or {})
        self.memo = {}
        self.pc = []
        self.known = {}
        self.stats = stats
        self.pending = []               # (prefix, model) alternatives
        self.solver = z3.Solver()
        self.declared = set()
        self.ticks = 0
        self.max_ticks = max_ticks
        self.covers = set()
        self.fails = []
        self.pinned = False
        self.hooks = {}
        self.counter = {}
        self.check_hits = 0

    # -- solver plumbing
    def _declare(self, n):
        for v in node_vars(n):
            if v not in self.declared:
                self.declared.add(v)
                if v.__class__ is IntVar:
                    self.solver.add(v.z >= v.lo, v.z <= v.hi)
                elif v.dom != ALL:
                    self.solver.add(_z_in(v, v.dom))

    def _assert(self, n):
        if n is True:
            return
        self._declare(n)
        self.pc.append(n)
        self.solver.add(to_z3(n))
        self.known[n.uid] = True
        m = Not(n)
        if m is not True and m is not False:
            self.known[m.uid] = False
        if n.k == 'and':
            for x in n.a:
                self.known[x.uid] = True
                y = Not(x)
                self.known[y.uid] = False

    def query(self, n):
        """model of pc and n, or None"""
        if n is False:
            return None
        if n is not True:
            self._declare(n)
        t = time.perf_counter()
        r = self.solver.check(*([] if n is True else [to_z3(n)]))
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            zm = self.solver.model()
            m = {}
            for v in self.declared:
                x = zm.eval(v.z, model_completion=False)
                if z3.is_bv_value(x) or z3.is_int_value(x):
                    m[v] = x.as_long()
            for v in self.declared:
                if v not in m and v in self.model:
                    m[v] = self.model[v]
            if n is not True and not evaluate(n, m, {}):
                raise EngineError('solver model does not satisfy formula')
            return m
        if r == z3.unsat:
            self.stats.unsat += 1
            return None
        raise EngineError('solver answered unknown')

    def _set_model(self, m):
        self.model = m
        self.memo = {}

    def holds(self, n):
        return evaluate(n, self.model, self.memo)

    # -- decisions
    def branch(self, n):
        if n is True or n is False:
            return n
        k = self.known.get(n.uid)
        if k is not None:
            return k
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d.__class__ is not bool:
                raise EngineError('replay mismatch: expected %r' % (d,))
            self.trace.append(d)
            self._assert(n if d else Not(n))
            return d
        d = self.holds(n)
        other = Not(n) if d else n
        m = self.query(other)
        if m is not None:
            self.pending.append((self.trace + [not d], m))
        else:
            self.stats.forced += 1
        self.trace.append(d)
        self._assert(n if d else Not(n))
        return d

    def assume(self, n):
        if n is True:
            return
        if n is False:
            self.stats.assume_cut += 1
            raise PathEnd()
        if self.known.get(n.uid) is True:
            return
        if self.pos < len(self.prefix):
            # assumption already known satisfiable under the prefix's model or before it
            self._assert(n)
            return
        if not self.holds(n):
            m = self.query(n)
            if m is None:
                self.stats.assume_cut += 1
                raise PathEnd()
            self._assert(n)
            self._set_model(m)
            return
        self._assert(n)

    def finish_prefix_model(self):
        """the stored model satisfies pc as long as the path is inside its prefix"""

    def can_fail(self, n):
        """None if n holds for every input of this path, else a model violating it"""
        self.stats.asserts += 1
        if n is True:
            return None
        if n is not False and self.known.get(n.uid) is True:
            return None
        self.stats.assert_queries += 1
        return self.query(Not(n))

    def pin(self, chars):
        """fallback: fix a group of symbolic characters to one value (up to 3 values are tried)"""
        self.stats.pins += 1
        self.pinned = True
        alts = 0
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                if d.__class__ is bool:
                    raise EngineError('replay mismatch (pin)')
                self.trace.append(d)
                eq = And([EqC(c, x) for c, x in zip(chars, d[1])])
                self._assert(eq if d[0] == 'pin' else Not(eq))
                if d[0] == 'pin':
                    return list(d[1])
                alts += 1
                continue
            vals = tuple(val(c, self.model) for c in chars)
            eq = And([EqC(c, x) for c, x in zip(chars, vals)])
            if alts < 2 and eq is not True:
                m = self.query(Not(eq))
                if m is not None:
                    self.pending.append((self.trace + [('nopin', vals)], m))
            elif eq is not True:
                self.stats.incomplete += 1
            self.trace.append(('pin', vals))
            self._assert(eq)
            return list(vals)

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise Hang()


def branch(n):
    if n is True or n is False:
        return n
    c = Ctx.cur
    if c is None:
        raise EngineError('symbolic branch outside of a path')
    return c.branch(n)
