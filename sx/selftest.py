"""Translator validation of the regular-expression encoding and of the symbolic
str methods against the real implementations (run: python3-vt -m sx.selftest)."""
import random
import re
import sys

sys.path.append('/opt/venv/lib/python3.12/site-packages')
import regex  # noqa: E402

from . import core, rx, strs  # noqa: E402
from .core import Ctx, Stats  # noqa: E402


def patterns(repo):
    out = set()
    import ast
    import glob
    for f in glob.glob(repo + '/oelint_parser/*.py'):
        t = ast.parse(open(f).read())
        for n in ast.walk(t):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'compile' and n.args \
                    and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                out.add(n.args[0].value)
    return sorted(out)


TOK = ['A', 'b', '_', '-', '.', '${', '}', '{', '(', ')', ' ', '\t', '=', '+', '?', ':', '"', "'", '#', '@', ',', '\\', '\n', 'append', 'inherit ', 'include ',
       'require ', 'python ', 'fakeroot ', 'do_x', 'addtask ', 'deltask ', 'before ', 'after ', 'unset ', 'export ', 'def ', '[', ']', 'x', '1', '0',
       'bb.utils.contains(', 'oe.utils.conditional(', 'd.getVar(', 'True', 'INHERIT', 'EXPORT_FUNCTIONS ', 'addpylib ', '${LAYERDIR}/', 'addfragments ', 'include_all ',
       'oe.utils.ifelse(', 'bb.utils.filter(', 'native', '-native', '-cross', 'nativesdk-', '\x1b', '\xa0', 'inherit_defer ', '/', '!!!inlineblock!!!']


def run(repo='/repo', n=400, seed=1):
    rnd = random.Random(seed)
    pats = patterns(repo)
    bad = cases = 0
    ctx = Ctx([], {}, Stats())
    Ctx.cur = ctx
    for p in pats:
        for fl in (0, rx.M):
            P = rx.Pattern(p, fl)
            P._compile()
            rp = regex.compile(p, fl)
            for _ in range(n if not fl else n // 4):
                s = ''.join(rnd.choice(TOK) for _ in range(rnd.randint(0, 9)))[:40]
                # bias towards matching: take literal words of the pattern
                if rnd.random() < .6:
                    words = re.findall(r'[a-zA-Z_]{3,}', p)
                    if words:
                        k = rnd.randint(0, len(s))
                        s = (s[:k] + rnd.choice(words).replace('P', '') + s[k:])[:44]
                vs = tuple(core.char_var('t%d' % i, core.ALL) for i in range(len(s)))
                # some characters concrete
                cs = tuple(v if rnd.random() < .7 else ord(c) for v, c in zip(vs, s))
                model = {v: ord(c) for v, c in zip(vs, s)}
                memo = {}
                for start in (0, rnd.randint(0, len(s))):
                    for full in (False, True):
                        m = (rp.fullmatch if full else rp.match)(s, start)
                        t = rx._Table(P, cs, None)
                        cases += 1
                        # ^ and look-behind at pos>0 see the whole string in both
                        a = core.evaluate(t.any(start, full), model, memo) if t.any(start, full).__class__ is not bool else t.any(start, full)
                        if a != bool(m):
                            bad += 1
                            print('MATCH', repr(p), repr(s), start, full, bool(m), a)
                            continue
                        if not m:
                            continue
                        for g in range(0, P.groups + 1):
                            t = rx._Table(P, cs, g)
                            r = [sp for sp, gd in t.result(start, full).items() if (gd if gd.__class__ is bool else core.evaluate(gd, model, memo))]
                            want = m.span(g) if m.span(g) != (-1, -1) else None
                            if r != [want]:
                                bad += 1
                                print('GROUP', repr(p), repr(s), start, full, g, want, r)
    print('regex: %d patterns, %d cases, %d differences' % (len(pats), cases, bad))
    # whole-operation checks through the forking API with fixed models
    ops = 0
    for p in pats + [r'\s', r'a*', r'', r'(a)|(b)', r'x*?', r'^', r'$', r'\b']:
        rp = regex.compile(p)
        for _ in range(n // 8):
            s = ''.join(rnd.choice(TOK) for _ in range(rnd.randint(0, 6)))[:24]
            vs = tuple(core.char_var('u%d' % i, core.ALL) for i in range(len(s)))
            model = {v: ord(c) for v, c in zip(vs, s)}
            Ctx.cur = c = Ctx([], model, Stats())
            c.query = lambda x: None            # follow the model, no alternatives
            S = strs.mk(vs)
            if not strs.is_sym(S):
                continue
            P = rx.compile(p)
            val = lambda x: None if x is None else [val(y) for y in x] if isinstance(x, (list, tuple)) else \
                ''.join(chr(core.val(i, c.model)) for i in strs.chars_of(x))
            for name, f, g in (('findall', lambda: P.findall(S), lambda: rp.findall(s)),
                               ('split', lambda: P.split(S), lambda: rp.split(s)),
                               ('sub', lambda: P.sub(r'<\g<0>>', S), lambda: rp.sub(r'<\g<0>>', s)),
                               ('sub1', lambda: P.sub('Z', S, count=1), lambda: rp.sub('Z', s, count=1)),
                               ('spans', lambda: [[str(m.span())] for m in P.finditer(S)], lambda: [[str(m.span())] for m in rp.finditer(s)]),
                               ('search', lambda: [str(m.span()) for m in [P.search(S)] if m], lambda: [str(m.span()) for m in [rp.search(s)] if m])):
                try:
                    a = f()
                except core.Unsupported as e:
                    print('UNSUPPORTED', p, name, e)
                    continue
                b = g()
                ops += 1
                if val(a) != [list(x) if isinstance(x, tuple) else x for x in b] if isinstance(b, list) else val(a) != b:
                    bad += 1
                    print('OP', name, repr(p), repr(s), 'want', b, 'got', val(a))
    print('regex operations: %d' % ops)
    bad += str_methods(rnd, n)
    print('total differences: %d' % bad)
    return bad


def str_methods(rnd, n):
    bad = ops = 0
    T = ['a', 'B', ' ', '\t', '"', '""', '_', '-', '{', '}', '/', '.', '..', '//', ':', '\n', '\x1b', '\x1c', '\xa0', '\xe9', '1', 'ab', 'ba']
    for _ in range(n * 4):
        s = ''.join(rnd.choice(T) for _ in range(rnd.randint(1, 7)))
        t = ''.join(rnd.choice(T) for _ in range(rnd.randint(0, 2)))
        u = rnd.choice(T)
        vs = tuple(core.char_var('w%d' % i, core.ALL) for i in range(len(s)))
        ws = tuple(core.char_var('x%d' % i, core.ALL) for i in range(len(t)))
        model = {v: ord(c) for v, c in zip(vs, s)}
        model.update({v: ord(c) for v, c in zip(ws, t)})
        Ctx.cur = c = Ctx([], model, Stats())
        c.query = lambda x: None
        S = strs.mk(vs)
        Tt = strs.mk(ws) if t else ''
        from .instr import SX

        def val(x):
            if isinstance(x, (list, tuple)):
                return [val(y) for y in x]
            if x.__class__ is strs.SymStr:
                return ''.join(chr(core.val(i, c.model)) for i in x.cs)
            if x.__class__ is strs.SymBool:
                return core.evaluate(x.n, c.model, {})
            if x.__class__ is strs.SymInt:
                return core.eval_lin(x.l, c.model, {})
            return x
        calls = [('strip', ()), ('lstrip', ()), ('rstrip', ()), ('strip', (u,)), ('lstrip', (u,)), ('rstrip', (u,)), ('strip', ('"\'',)), ('split', ()), ('split', (u,)), ('split', (u, 1)),
                 ('split', (None, 1)), ('rsplit', (u, 1)), ('partition', (u,)), ('rpartition', (u,)), ('replace', (u, 'Q')), ('replace', (u, 'Q', 1)), ('replace', ('', 'Q')), ('find', (u,)), ('rfind', (u,)),
                 ('count', (u,)), ('startswith', (u,)), ('endswith', (u,)), ('startswith', ((u, 'a'),)), ('lower', ()), ('upper', ()), ('splitlines', ()), ('splitlines', (True,)), ('isspace', ()), ('isdigit', ()),
                 ('isalpha', ()), ('isidentifier', ()), ('isupper', ()), ('islower', ()), ('removeprefix', (u,)), ('removesuffix', (u,)), ('find', (u, 1)), ('rfind', (u, 0, 2)), ('capitalize', ()), ('isalnum', ())]
        for name, a in calls:
            want = getattr(s, name)(*a)
            got = val(SX.callm(S, name, *a))
            ops += 1
            if got != (list(want) if isinstance(want, tuple) else want):
                bad += 1
                print('STR', name, repr(s), a, want, got)
        if t:
            for name in ('replace', 'find', 'count', 'startswith', 'endswith', 'split', 'strip', 'lstrip', 'rstrip', 'partition', 'rfind'):
                a = (Tt, 'Z') if name == 'replace' else (Tt,)
                b = (t, 'Z') if name == 'replace' else (t,)
                want = getattr(s, name)(*b)
                got = val(SX.callm(S, name, *a))
                ops += 1
                if got != (list(want) if isinstance(want, tuple) else want):
                    bad += 1
                    print('STR', name, repr(s), b, want, got)
            for want, got in ((t in s, SX.contains(Tt, S)), (s < t, S < Tt), (s >= t, S >= Tt), (s == t, S == Tt), (sorted([s, t]), sorted([S, Tt]))):
                ops += 1
                if val(got) != want:
                    bad += 1
                    print('CMP', repr(s), repr(t), want, val(got))
    print('str operations: %d' % ops)
    return bad


if __name__ == '__main__':
    sys.exit(1 if run(n=int(sys.argv[1]) if len(sys.argv) > 1 else 400) else 0)
