"""Symbolic matching of `regex`/`re` patterns on strings of known length with
symbolic characters.

A pattern is parsed (structure: CPython's re parser; character classes: the
real `regex` module, asked code point by code point) into a backtracking
program.  For a string the engine builds, per position and program point, the
*disjoint* set of outcomes with their guards in backtracking priority order, so
"does it match" is one formula and "which span has group g" one fork per
distinct span.
"""
import functools
import re as _re
import re._constants as sc
import re._parser as sp

from . import core
from .core import And, EqC, In, Not, Or, Unsupported, branch

try:
    import regex as _regex
except ImportError:                       # pragma: no cover
    _regex = _re

PUA = 0xE000                              # placeholders of symbolic pattern characters

I = IGNORECASE = 2
M = MULTILINE = 8
S = DOTALL = 16
X = VERBOSE = 64


@functools.lru_cache(None)
def _cls_mask(pat, flags=0):
    m = 0
    rf = 0
    if flags & I:
        rf |= _regex.IGNORECASE
    p = _regex.compile(pat, rf | _regex.DOTALL)
    for i in range(256):
        if p.fullmatch(chr(i)):
            m |= 1 << i
    return m


_CAT = {
    sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D',
    sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
    sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W',
}


def _lit_mask(c, flags):
    if flags & I:
        return _cls_mask(_regex.escape(chr(c)), I)
    return 1 << c if c < 256 else 0


def _range_mask(lo, hi, flags):
    if flags & I:
        return _cls_mask('[%s-%s]' % (_regex.escape(chr(lo)), _regex.escape(chr(min(hi, 255)))), I)
    m = 0
    for i in range(lo, min(hi, 255) + 1):
        m |= 1 << i
    return m


class Prog:
    """instructions: (op, args..., next)"""

    def __init__(self):
        self.code = []
        self.loops = 0
        self.top = False

    def emit(self, *ins):
        self.code.append(ins)
        return len(self.code) - 1


class Pattern:
    """compiled pattern usable on concrete and symbolic strings"""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = int(flags)
        self.holes = []
        if isinstance(pattern, str):
            try:
                self.real = _regex.compile(pattern, int(flags))
            except _regex.error as e:
                raise Error(str(e))
            src = pattern
        else:
            self.real = None
            src = self._concretise(pattern)
        self.src = src
        self.prog = None
        self.groupindex = {}
        self.groups = 0
        if self.real is not None:
            self.groupindex = dict(self.real.groupindex)
            self.groups = self.real.groups
        else:
            self._compile()

    def _concretise(self, pat):
        """symbolic characters of a pattern: meta characters are forked on, the rest become literals"""
        from .strs import chars_of, const_of
        cs = list(chars_of(pat))
        out = []
        meta = core.mask_of('.^$*+?{}[]\\|()')
        space = core.mask_of('# \t\n\r\f\v')
        i = 0
        esc = False
        incls = False
        while i < len(cs):
            c = cs[i]
            if c.__class__ is int:
                ch = c
            elif esc:
                alnum = _cls_mask('[A-Za-z0-9]')
                if branch(In(c, alnum)):
                    ch = const_of(c)
                else:
                    ch = None
            else:
                m = meta | (space if self.flags & X else 0) | (core.mask_of('-^]&~|[') if incls else 0)
                if branch(In(c, m)):
                    ch = const_of(c)
                else:
                    ch = None
            if ch is None:
                self.holes.append(c)
                out.append(chr(PUA + len(self.holes) - 1))
                esc = False
            else:
                if not esc:
                    if ch == ord('['):
                        incls = True
                    elif ch == ord(']'):
                        incls = False
                esc = (ch == ord('\\')) and not esc
                out.append(chr(ch))
            i += 1
        return ''.join(out)

    def _compile(self):
        if self.prog is not None:
            return self.prog
        try:
            tree = sp.parse(self.src, self.flags & (I | M | S | X))
        except _re.error as e:
            if self.real is None:
                try:
                    _regex.compile(self.src)
                except _regex.error as e2:
                    raise Error(str(e2))
            raise Unsupported('regex syntax: %s (%r)' % (e, self.src))
        self.flags |= tree.state.flags & (I | M | S | X)
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)
        p = Prog()
        p.top = True
        self.refs = set()
        self._find_refs(tree)
        end = p.emit('match')
        self.start = self._seq(p, list(tree), end, self.flags)
        self.prog = p
        return p

    def _find_refs(self, items):
        for op, av in items:
            if op is sc.GROUPREF:
                self.refs.add(av)
            todo = [av]
            while todo:
                x = todo.pop()
                if isinstance(x, sp.SubPattern):
                    self._find_refs(x)
                elif isinstance(x, (list, tuple)):
                    todo.extend(x)

    # compile backwards: returns entry pc of items followed by nxt
    def _seq(self, p, items, nxt, flags):
        for op, av in reversed(items):
            nxt = self._item(p, op, av, nxt, flags)
        return nxt

    def _char(self, p, mask, nxt):
        return p.emit('in', mask, nxt)

    def _item(self, p, op, av, nxt, flags):
        if op is sc.LITERAL or op is sc.NOT_LITERAL:
            if PUA <= av < PUA + 0x800 and self.holes:
                return p.emit('hole', self.holes[av - PUA], op is sc.NOT_LITERAL, nxt)
            m = _lit_mask(av, flags)
            return self._char(p, m if op is sc.LITERAL else core.ALL & ~m, nxt)
        if op is sc.ANY:
            return self._char(p, core.ALL if flags & S else core.ALL & ~(1 << 10), nxt)
        if op is sc.IN:
            m = 0
            neg = False
            hole = []
            for o, a in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    if PUA <= a < PUA + 0x800 and self.holes:
                        hole.append(self.holes[a - PUA])
                    else:
                        m |= _lit_mask(a, flags)
                elif o is sc.RANGE:
                    if self.holes and a[1] >= PUA:
                        raise Unsupported('symbolic range')
                    m |= _range_mask(a[0], a[1], flags)
                elif o is sc.CATEGORY:
                    m |= _cls_mask(_CAT[a])
                else:
                    raise Unsupported('set item %r' % (o,))
            if hole:
                return p.emit('set', m, tuple(hole), neg, nxt)
            return self._char(p, core.ALL & ~m if neg else m, nxt)
        if op is sc.BRANCH:
            return p.emit('split', tuple(self._seq(p, list(x), nxt, flags) for x in av[1]))
        if op is sc.SUBPATTERN:
            g, add, dele, sub = av
            f = (flags | add) & ~dele
            if g is None:
                return self._seq(p, list(sub), nxt, f)
            if g in self.refs and not p.top:
                raise Unsupported('back reference into an assertion')
            close = p.emit('save', 2 * g + 1, nxt)
            body = self._seq(p, list(sub), close, f)
            return p.emit('save', 2 * g, body)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if op is sc.POSSESSIVE_REPEAT:
                q = Prog()
                e = q.emit('match')
                st = self._repeat(q, lo, hi, list(sub), e, flags, True)
                return p.emit('atomic', q, st, nxt)
            return self._repeat(p, lo, hi, list(sub), nxt, flags, op is sc.MAX_REPEAT)
        if op is sc.AT:
            return p.emit('at', av, flags, nxt)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            q = Prog()
            e = q.emit('match')
            st = self._seq(q, list(sub), e, flags)
            if d < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('variable look-behind')
                return p.emit('behind', q, st, w[0], op is sc.ASSERT_NOT, nxt)
            return p.emit('ahead', q, st, op is sc.ASSERT_NOT, nxt)
        if op is sc.ATOMIC_GROUP:
            q = Prog()
            e = q.emit('match')
            st = self._seq(q, list(av), e, flags)
            return p.emit('atomic', q, st, nxt)
        if op is sc.GROUPREF:
            if flags & I or not p.top:
                raise Unsupported('back reference')
            return p.emit('ref', av, nxt)
        raise Unsupported('regex op %r' % (op,))

    def _repeat(self, p, lo, hi, sub, nxt, flags, greedy):
        inf = hi is sc.MAXREPEAT or hi == sc.MAXREPEAT
        w = sp.SubPattern(sp.State(), sub).getwidth() if not isinstance(sub, sp.SubPattern) else sub.getwidth()
        if inf:
            i = p.emit('nop', None)
            if w[0] == 0:
                p.loops += 1
                lid = p.loops
                chk = p.emit('loopchk', lid, i, nxt)
                body = self._seq(p, sub, chk, flags)
                enter = p.emit('loopset', lid, body)
            else:
                enter = self._seq(p, sub, i, flags)
            s = p.emit('split', (enter, nxt) if greedy else (nxt, enter))
            p.code[i] = ('nop', s)
            entry = s
        else:
            entry = nxt
            for _ in range(hi - lo):
                body = self._seq(p, sub, entry, flags)
                entry = p.emit('split', (body, nxt) if greedy else (nxt, body))
        for _ in range(lo):
            entry = self._seq(p, sub, entry, flags)
        return entry

    # ---------------------------------------------------------------- matching
    def table(self, cs, group):
        """matcher over the character tuple cs tracking the span of `group` (None: no group)"""
        key = (self, cs, group)
        t = _tables.get(key)
        if t is None:
            self._compile()
            t = _Table(self, cs, group)
            if len(_tables) > 6000:
                _tables.clear()
            _tables[key] = t
        return t

    # real-module like API ----------------------------------------------------
    def _run(self, kind, string, pos=None, endpos=None, **kw):
        from .strs import chars_of, is_sym
        if kw.get('timeout') is not None and fault_hook(kind):
            raise TimeoutError('regex timed out')
        if self.real is not None and not is_sym(string):
            f = getattr(self.real, kind)
            a = [] if pos is None else [pos] if endpos is None else [pos, endpos]
            return f(string, *a)
        cs = chars_of(string)
        if endpos is not None:
            raise Unsupported('endpos')
        return self._symrun(kind, string, cs, pos or 0)

    def _symrun(self, kind, string, cs, pos, full=False):
        if kind == 'match':
            starts = [pos]
        elif kind == 'fullmatch':
            starts = [pos]
            full = True
        else:
            starts = list(range(pos, len(cs) + 1))
        t = self.table(cs, None)
        anys = [t.any(s, full) for s in starts]
        if not branch(Or(anys)):
            return None
        return Match(self, string, cs, starts, full)

    def match(self, string, pos=None, endpos=None, **kw):
        return self._run('match', string, pos, endpos, **kw)

    def fullmatch(self, string, pos=None, endpos=None, **kw):
        return self._run('fullmatch', string, pos, endpos, **kw)

    def search(self, string, pos=None, endpos=None, **kw):
        return self._run('search', string, pos, endpos, **kw)

    def _iter(self, string, limit=0):
        """successive non-overlapping matches (re >= 3.7 semantics for empty matches)"""
        from .strs import chars_of
        cs = chars_of(string)
        pos = 0
        noempty = None
        n = 0
        while pos <= len(cs):
            if noempty == pos:
                # an empty match directly after the previous match start is not allowed
                m = self._search_nonempty(string, cs, pos)
            else:
                m = self._symrun('search', string, cs, pos)
            if m is None:
                return
            yield m
            n += 1
            if limit and n >= limit:
                return
            s, e = m.span()
            if e == s:
                noempty = e
                pos = e
            else:
                pos = e
                noempty = None
            if e == s:
                noempty = e

    def _search_nonempty(self, string, cs, pos):
        """next match that is not the empty match at pos"""
        return self._symrun('search', string, cs, pos, full=('ne', pos))

    def finditer(self, string, *a, **kw):
        from .strs import is_sym
        if self.real is not None and not is_sym(string):
            if _faults is not None and kw.get('timeout') is not None:
                return _fault_iter(self.real.finditer(string))
            return self.real.finditer(string)
        it = self._iter(string)
        if _faults is not None and kw.get('timeout') is not None:
            return _fault_iter(it)
        return it

    def findall(self, string, *a, **kw):
        from .strs import is_sym
        if kw.get('timeout') is not None and fault_hook('findall'):
            raise TimeoutError('regex timed out')
        if self.real is not None and not is_sym(string):
            return self.real.findall(string)
        out = []
        for m in self._iter(string):
            if self.groups == 0:
                out.append(m.group(0))
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple(x if x is not None else '' for x in m.groups()))
        return out

    def split(self, string, maxsplit=0, **kw):
        from .strs import is_sym
        if kw.get('timeout') is not None and fault_hook('split'):
            raise TimeoutError('regex timed out')
        if self.real is not None and not is_sym(string):
            return self.real.split(string, maxsplit)
        out = []
        last = 0
        for m in self._iter(string, maxsplit):
            s, e = m.span()
            out.append(string[last:s])
            out.extend(m.groups())
            last = e
        out.append(string[last:])
        return out

    def sub(self, repl, string, count=0, **kw):
        return self.subn(repl, string, count, **kw)[0]

    def subn(self, repl, string, count=0, **kw):
        from .strs import is_sym, SymStr, callable_
        if kw.get('timeout') is not None and fault_hook('sub'):
            raise TimeoutError('regex timed out')
        if self.real is not None and not is_sym(string) and not is_sym(repl) and isinstance(repl, str):
            return self.real.subn(repl, string, count)
        if not is_sym(string):
            string = SymStr.promote(string)
        out = ''
        last = 0
        n = 0
        for m in self._iter(string, count):
            s, e = m.span()
            out = out + string[last:s] + (repl(m) if callable_(repl) else m.expand(repl))
            last = e
            n += 1
        return out + string[last:], n

    def __repr__(self):
        return 'Pattern(%r)' % (self.pattern,)


_tables = {}


class _Table:
    def __init__(self, pat, cs, group):
        self.pat = pat
        self.code = pat.prog.code
        self.cs = cs
        self.n = len(cs)
        self.g = group
        self.memo = {}
        self.anym = {}

    # guard that the program matches from pc at pos -------------------------
    def any(self, start, full):
        return self._any(self.code, self.pat.start, start, (), full)

    def _any(self, code, pc, pos, loops, full):
        key = (id(code), pc, pos, loops, full)
        r = self.anym.get(key)
        if r is None:
            r = self._any0(code, pc, pos, loops, full)
            self.anym[key] = r
        return r

    def _any0(self, code, pc, pos, loops, full):
        ins = code[pc]
        op = ins[0]
        if op == 'match':
            if full is True:
                return pos == self.n
            return pos != full[1] if full else True
        if op == 'in':
            if pos >= self.n:
                return False
            c = self.cs[pos]
            g = bool(ins[1] >> c & 1) if c.__class__ is int and c < 256 else \
                (ins[1] == core.ALL or ins[1] >> 120 != 0 if c.__class__ is int else In(c, ins[1]))
            if g is False:
                return False
            return And([g, self._any(code, ins[2], pos + 1, loops, full)])
        if op == 'hole':
            if pos >= self.n:
                return False
            g = EqC(self.cs[pos], ins[1])
            if ins[2]:
                g = Not(g)
            return And([g, self._any(code, ins[3], pos + 1, loops, full)])
        if op == 'set':
            if pos >= self.n:
                return False
            g = self._set(ins, pos)
            return And([g, self._any(code, ins[4], pos + 1, loops, full)])
        if op == 'split':
            return Or([self._any(code, x, pos, loops, full) for x in ins[1]])
        if op == 'save':
            if ins[1] // 2 in self.pat.refs:
                loops = self._lset(loops, -1 - ins[1], pos)
            return self._any(code, ins[2], pos, loops, full)
        if op == 'ref':
            n, g = self._ref(ins[1], pos, loops)
            return False if g is False else And([g, self._any(code, ins[2], pos + n, loops, full)])
        if op == 'nop':
            return self._any(code, ins[1], pos, loops, full)
        if op == 'loopset':
            return self._any(code, ins[2], pos, self._lset(loops, ins[1], pos), full)
        if op == 'loopchk':
            d = dict(loops)
            return self._any(code, ins[3] if d[ins[1]] == pos else ins[2], pos, loops, full)
        g = self._zero(ins, pos)
        if op == 'atomic':
            return Or([And([gg, self._any(code, ins[3], e, loops, full)]) for e, gg in g.items()])
        if g is False:
            return False
        return And([g, self._any(code, ins[-1], pos, loops, full)])

    def _ref(self, g, pos, loops):
        """length and guard of a back reference"""
        d = dict(loops)
        s, e = d.get(-1 - 2 * g), d.get(-2 - 2 * g)
        if s is None or e is None or e < s or pos + e - s > self.n:
            return 0, False
        return e - s, And([EqC(self.cs[s + i], self.cs[pos + i]) for i in range(e - s)])

    @staticmethod
    def _lset(loops, lid, pos):
        d = dict(loops)
        d[lid] = pos
        return tuple(sorted(d.items()))

    def _set(self, ins, pos):
        c = self.cs[pos]
        g = Or([In(c, ins[1]) if c.__class__ is not int else bool(c < 256 and ins[1] >> c & 1)] +
               [EqC(c, h) for h in ins[2]])
        return Not(g) if ins[3] else g

    def _isin(self, pos, mask):
        c = self.cs[pos]
        if c.__class__ is int:
            return bool(c < 256 and mask >> c & 1)
        return In(c, mask)

    def _zero(self, ins, pos):
        """guard of a zero-width instruction"""
        op = ins[0]
        if op == 'at':
            av, flags = ins[1], ins[2]
            if av is sc.AT_BEGINNING:
                if pos == 0:
                    return True
                return self._isin(pos - 1, 1 << 10) if flags & M else False
            if av is sc.AT_BEGINNING_STRING:
                return pos == 0
            if av is sc.AT_END:
                if pos == self.n:
                    return True
                if flags & M:
                    return self._isin(pos, 1 << 10)
                return self._isin(pos, 1 << 10) if pos == self.n - 1 else False
            if av is sc.AT_END_STRING:
                return pos == self.n
            if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                w = _cls_mask(r'\w')
                a = self._isin(pos - 1, w) if pos > 0 else False
                b = self._isin(pos, w) if pos < self.n else False
                x = Or([And([a, Not(b)]), And([Not(a), b])])
                return x if av is sc.AT_BOUNDARY else Not(x)
            raise Unsupported('anchor %r' % (av,))
        if op == 'ahead':
            q, st, neg = ins[1], ins[2], ins[3]
            g = self._any(q.code, st, pos, (), False)
            return Not(g) if neg else g
        if op == 'behind':
            q, st, w, neg = ins[1], ins[2], ins[3], ins[4]
            g = False
            if pos - w >= 0:
                sub = _Table.__new__(_Table)
                sub.pat, sub.code, sub.cs, sub.n, sub.g = self.pat, q.code, self.cs[:pos], pos, None
                sub.memo, sub.anym = {}, {}
                g = sub._any(q.code, st, pos - w, (), True)
            return Not(g) if neg else g
        if op == 'atomic':
            q, st = ins[1], ins[2]
            r = self._res(q.code, st, pos, (), False, 'end')
            out = {}
            for cap, g in r.items():
                out[cap] = Or([out.get(cap, False), g])
            return out
        raise Unsupported(op)

    # disjoint outcomes: span of the tracked group -> guard -----------------
    def result(self, start, full):
        r = self._res(self.code, self.pat.start, start, (), full, self.g)
        out = {}
        for cap, g in r.items():
            if self.g == 0:
                sp_ = (start, cap)
            else:
                sp_ = cap if cap[0] is not None else None
            out[sp_] = Or([out.get(sp_, False), g])
        return out

    def _res(self, code, pc, pos, loops, full, track):
        key = (id(code), pc, pos, loops, full, track)
        r = self.memo.get(key)
        if r is None:
            r = self._res0(code, pc, pos, loops, full, track)
            self.memo[key] = r
        return r

    def _res0(self, code, pc, pos, loops, full, track):
        ins = code[pc]
        op = ins[0]
        if op == 'match':
            if full is True and pos != self.n or full.__class__ is tuple and pos == full[1]:
                return {}
            return {(pos if track in (0, 'end') else (None, None)): True}
        if op in ('in', 'hole', 'set'):
            if pos >= self.n:
                return {}
            if op == 'in':
                c = self.cs[pos]
                if c.__class__ is int:
                    g = bool(ins[1] >> c & 1) if c < 256 else (ins[1] >> 120 != 0)
                else:
                    g = In(c, ins[1])
            elif op == 'hole':
                g = EqC(self.cs[pos], ins[1])
                if ins[2]:
                    g = Not(g)
            else:
                g = self._set(ins, pos)
            if g is False:
                return {}
            return self._guard(g, self._res(code, ins[-1], pos + 1, loops, full, track))
        if op == 'split':
            out = {}
            before = False
            for x in ins[1]:
                r = self._res(code, x, pos, loops, full, track)
                if r:
                    nb = Not(before)
                    for cap, g in r.items():
                        g2 = And([g, nb])
                        if g2 is not False:
                            out[cap] = Or([out.get(cap, False), g2])
                    before = Or([before] + list(r.values()))
                    if before is True:
                        break
            return out
        if op == 'ref':
            n, g = self._ref(ins[1], pos, loops)
            return {} if g is False else self._guard(g, self._res(code, ins[2], pos + n, loops, full, track))
        if op == 'save':
            if ins[1] // 2 in self.pat.refs:
                loops = self._lset(loops, -1 - ins[1], pos)
            r = self._res(code, ins[2], pos, loops, full, track)
            if track is None or track in (0, 'end') or ins[1] // 2 != track:
                return r
            out = {}
            for (s, e), g in r.items():
                if ins[1] % 2 == 1:
                    cap = (s, pos if e is None else e)
                else:
                    cap = (pos if s is None else s, e)
                out[cap] = Or([out.get(cap, False), g])
            return out
        if op == 'nop':
            return self._res(code, ins[1], pos, loops, full, track)
        if op == 'loopset':
            return self._res(code, ins[2], pos, self._lset(loops, ins[1], pos), full, track)
        if op == 'loopchk':
            d = dict(loops)
            return self._res(code, ins[3] if d[ins[1]] == pos else ins[2], pos, loops, full, track)
        g = self._zero(ins, pos)
        if op == 'atomic':
            out = {}
            for e, gg in g.items():
                for cap, g2 in self._res(code, ins[3], e, loops, full, track).items():
                    out[cap] = Or([out.get(cap, False), And([gg, g2])])
            return out
        if g is False:
            return {}
        return self._guard(g, self._res(code, ins[-1], pos, loops, full, track))

    @staticmethod
    def _guard(g, r):
        if g is True:
            return r
        out = {}
        for cap, x in r.items():
            y = And([g, x])
            if y is not False:
                out[cap] = y
        return out


class Match:
    """a successful match whose group spans are decided on demand"""

    def __init__(self, pat, string, cs, starts, full):
        self.re = pat
        self.string = string
        self._cs = cs
        self._starts = starts
        self._full = full
        self._spans = {}
        self.pos = 0
        self.endpos = len(cs)

    @property
    def regs(self):
        return tuple(self.span(g) for g in range(self.re.groups + 1))

    def captures(self, *gs):
        raise Unsupported('captures')

    capturesdict = allcaptures = allspans = spans = starts = ends = captures

    def _start(self):
        """start position of the match"""
        if len(self._starts) == 1:
            return self._starts[0]
        t = self.re.table(self._cs, None)
        cand = [s for s in self._starts if t.any(s, self._full) is not False]
        for s in cand[:-1]:
            if branch(t.any(s, self._full)):
                break
        else:
            s = cand[-1]
        self._starts = [s]
        return s

    def _gid(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def _span(self, g):
        g = self._gid(g)
        if g in self._spans:
            return self._spans[g]
        s = self._start()
        outs = [(sp_, gd) for sp_, gd in self.re.table(self._cs, g).result(s, self._full).items() if gd is not False]
        for sp_, gd in outs[:-1]:
            if branch(gd):
                break
        else:
            sp_ = outs[-1][0]
        self._spans[g] = sp_
        return sp_

    def span(self, g=0):
        r = self._span(g)
        return (-1, -1) if r is None else r

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            r = self._span(g)
            out.append(None if r is None else self.string[r[0]:r[1]])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        out = []
        for g in range(1, self.re.groups + 1):
            x = self.group(g)
            out.append(default if x is None else x)
        return tuple(out)

    def groupdict(self, default=None):
        return _LazyGroups(self, default)

    @property
    def lastindex(self):
        # the group that was closed last
        best = None
        for g in range(1, self.re.groups + 1):
            r = self._span(g)
            if r is not None and (best is None or r[1] > best[0]):
                best = (r[1], g)
        return best[1] if best else None

    @property
    def lastgroup(self):
        i = self.lastindex
        return next((k for k, v in self.re.groupindex.items() if v == i), None)

    def expand(self, tmpl):
        from .strs import is_sym
        if is_sym(tmpl):
            raise Unsupported('symbolic replacement template')
        if '\\' not in tmpl:
            return tmpl
        out = ''
        i = 0
        while i < len(tmpl):
            c = tmpl[i]
            if c != '\\':
                out = out + c
                i += 1
                continue
            d = tmpl[i + 1:i + 2]
            if d == 'g':
                j = tmpl.index('>', i)
                name = tmpl[i + 3:j]
                x = self.group(int(name) if name.isdigit() else name)
                out = out + (x if x is not None else '')
                i = j + 1
            elif d.isdigit():
                j = i + 1
                while j < len(tmpl) and tmpl[j].isdigit() and j < i + 3:
                    j += 1
                x = self.group(int(tmpl[i + 1:j]))
                out = out + (x if x is not None else '')
                i = j
            elif d in 'nrt\\':
                out = out + {'n': '\n', 'r': '\r', 't': '\t', '\\': '\\'}[d]
                i += 2
            else:
                raise Unsupported('replacement escape %r' % d)
        return out

    def __bool__(self):
        return True


class _LazyGroups(dict):
    """groupdict() whose values are decided when looked at"""

    def __init__(self, m, default):
        super().__init__({k: None for k in m.re.groupindex})
        self._m, self._d = m, default

    def __getitem__(self, k):
        if not dict.__contains__(self, k):
            raise KeyError(k)
        x = self._m.group(k)
        return self._d if x is None else x

    def get(self, k, d=None):
        return self[k] if dict.__contains__(self, k) else d

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]


# -------------------------------------------------------------- shim module

Error = type('error', (Exception,), {})

_faults = None        # callable(kind) -> bool deciding whether this operation times out


def fault_hook(kind):
    return _faults is not None and _faults(kind)


def _fault_iter(it):
    def gen():
        for m in it:
            if fault_hook('finditer'):
                raise TimeoutError('regex timed out')
            yield m
        if fault_hook('finditer'):
            raise TimeoutError('regex timed out')
    return gen()


_cache = {}


def compile(pattern, flags=0, **kw):                               # noqa: A001
    if isinstance(pattern, Pattern):
        return pattern
    if pattern.__class__.__module__.split('.')[0] in ('_regex', 're', 'regex', '_regex_core'):
        return compile(pattern.pattern, pattern.flags & (I | M | S | X))
    if isinstance(pattern, str):
        key = (pattern, int(flags))
        p = _cache.get(key)
        if p is None:
            p = _cache[key] = Pattern(pattern, flags)
        return p
    return Pattern(pattern, flags)


def _pat(pattern, flags):
    if isinstance(pattern, Pattern) and int(flags):
        raise ValueError('cannot process flags argument with a compiled pattern')
    return compile(pattern, flags)


def _chk(timeout):
    if timeout is not None and timeout <= 0:
        raise ValueError('timeout not positive')


def _mk(kind):
    def f(pattern, string, flags=0, pos=None, endpos=None, partial=False, concurrent=None, timeout=None, ignore_unused=False, **kw):
        return getattr(_pat(pattern, flags), kind)(string, pos, endpos, timeout=timeout)
    f.__name__ = kind
    return f


match = _mk('match')
search = _mk('search')
fullmatch = _mk('fullmatch')


def split(pattern, string, maxsplit=0, flags=0, concurrent=None, timeout=None, **kw):
    return _pat(pattern, flags).split(string, maxsplit, timeout=timeout)


def splititer(pattern, string, maxsplit=0, flags=0, concurrent=None, timeout=None, **kw):
    return iter(split(pattern, string, maxsplit, flags, timeout=timeout))


def sub(pattern, repl, string, count=0, flags=0, pos=None, endpos=None, concurrent=None, timeout=None, **kw):
    return _pat(pattern, flags).sub(repl, string, count, timeout=timeout)


def subn(pattern, repl, string, count=0, flags=0, **kw):
    return _pat(pattern, flags).subn(repl, string, count, **kw)


def finditer(pattern, string, flags=0, pos=None, endpos=None, overlapped=False, partial=False, concurrent=None, timeout=None, **kw):
    return _pat(pattern, flags).finditer(string, timeout=timeout)


def findall(pattern, string, flags=0, **kw):
    return _pat(pattern, flags).findall(string, **kw)


def escape(pattern, special_only=True, literal_spaces=False):
    from .strs import is_sym, SymStr, chars_of
    if not is_sym(pattern):
        return _regex.escape(pattern, special_only, literal_spaces)
    spec = _esc_mask(special_only, literal_spaces)
    out = ''
    for ch in pattern:
        c = chars_of(ch)[0]
        if c.__class__ is int:
            out = out + _regex.escape(chr(c), special_only, literal_spaces)
        elif branch(In(c, spec)):
            out = out + '\\' + ch
        else:
            out = out + ch
    return out


@functools.lru_cache(None)
def _esc_mask(so, ls):
    return core.mask_of(i for i in range(256) if len(_regex.escape(chr(i), so, ls)) > 1)


def make_module(name='regex'):
    import types
    m = types.ModuleType(name)
    for k in ('compile', 'match', 'search', 'fullmatch', 'split', 'sub', 'subn', 'finditer', 'findall', 'splititer',
              'escape', 'I', 'M', 'S', 'X', 'IGNORECASE', 'MULTILINE', 'DOTALL', 'VERBOSE'):
        setattr(m, k, globals()[k])
    m.Match = Match
    m.Scanner = object
    m.Pattern = Pattern
    m.error = Error
    m.A = m.ASCII = 0
    m.U = m.UNICODE = 0
    m.V0 = m.VERSION0 = 0
    m.V1 = m.VERSION1 = 0
    m.purge = lambda: None
    m.cache_all = lambda *a: None
    m.regex = m
    m._regex_core = m
    return m
