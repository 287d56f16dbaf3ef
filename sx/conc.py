"""Concrete environment: runs a harness against the real package (no z3 here)."""
import importlib
import os
import sys


class Fail(BaseException):
    pass


class Cut(BaseException):
    pass


class ConcEnv:
    symbolic = False

    def __init__(self, inputs, root, known=()):
        self.inputs = inputs
        self.root = root
        self.fails = []
        self.covers = []
        self.known = set(known)
        self._ops = 0
        self._perm = None
        self._seen = []

    # -- inputs
    def str(self, name, n, alpha):
        v = self.inputs.get('s:' + name)
        if v is None:
            v = _default(alpha) * n
        return v

    def bool(self, name):
        return bool(self.inputs.get('b:' + name, 0))

    def int(self, name, lo, hi):
        return self.inputs.get('i:' + name, lo if lo > 0 or hi < 0 else 0)

    def choice(self, name, options):
        return options[self.inputs.get('c:' + name, 0)]

    def assume(self, c):
        if not c:
            raise Cut()

    def check(self, c, msg):
        if not c:
            self.fails.append(msg)
            raise Fail()

    def cover(self, label):
        self.covers.append(label)

    def finding(self, fid, c=True):
        return fid in self.known and bool(c)

    # -- world
    def mod(self, name):
        return importlib.import_module(name)

    def path(self, rel=''):
        return self.root + ('/' + rel if rel else '')

    def write(self, rel, content, flag=True):
        if not flag:
            return
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(content)

    def mkdir(self, rel, flag=True):
        if flag:
            os.makedirs(self.path(rel), exist_ok=True)

    def remove(self, rel):
        os.unlink(self.path(rel))

    def obs(self, x):
        return x

    # -- faults
    def timeouts(self, name, limit, most=None):
        """the i-th regular expression operation with a time limit times out iff input i says so"""
        import regex
        env = self
        mods = list({id(m): m for k, m in list(sys.modules.items()) if (k == 'regex' or k.startswith('regex.')) and hasattr(m, 'search')}.values())

        def decide():
            i = env._ops
            env._ops += 1
            if i >= limit:
                return False
            return bool(env.inputs.get('b:%s.%d' % (name, i), 0))

        def wrap(fn, it):
            def f(*a, **k):
                if k.get('timeout') is None:
                    return fn(*a, **k)
                if it:
                    def gen():
                        for m in fn(*a, **k):
                            if decide():
                                raise TimeoutError('regex timed out')
                            yield m
                        if decide():
                            raise TimeoutError('regex timed out')
                    return gen()
                if decide():
                    raise TimeoutError('regex timed out')
                return fn(*a, **k)
            return f
        done = {}
        for m in mods:
            for n in ('match', 'search', 'fullmatch', 'split', 'sub', 'subn', 'finditer', 'findall'):
                fn = getattr(m, n, None)
                if fn is None:
                    continue
                if id(fn) not in done:
                    done[id(fn)] = wrap(fn, n == 'finditer')
                setattr(m, n, done[id(fn)])

    def seen(self, x):
        self._seen.append(norm(x))

    def permute(self, on=True):
        """directory listings depend on the hash seed (like the iteration order of sets does)"""
        import random
        seed = os.environ.get('PYTHONHASHSEED', '0')
        if not hasattr(self, '_ls'):
            self._ls = (os.listdir, os.scandir)
        ls, sc = self._ls

        def mix(l):
            l = sorted(l, key=lambda x: x if isinstance(x, str) else x.name)
            if on and seed != '0':
                random.Random(seed).shuffle(l)
            return l

        class Scan(list):
            def __enter__(self):
                return iter(self)

            def __exit__(self, *a):
                pass

            def close(self):
                pass
        os.listdir = lambda *a: mix(ls(*a))

        def scandir(*a):
            with sc(*a) as it:
                return Scan(mix(it))
        os.scandir = scandir


def _default(alpha):
    for c in 'axbyA0_':
        if c in alpha:
            return c
    for c in alpha:
        if 33 <= ord(c) < 127:
            return c
    return alpha[0]


def norm(x, d=0):
    """JSON-able rendering of an observation"""
    if d > 12:
        return '<deep>'
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, (list, tuple)):
        return [norm(y, d + 1) for y in x]
    if isinstance(x, dict):
        return {'dict': sorted(([norm(k, d + 1), norm(v, d + 1)] for k, v in x.items()), key=repr)}
    if isinstance(x, (set, frozenset)):
        return {'set': sorted((norm(y, d + 1) for y in x), key=repr)}
    if hasattr(x, 'data') and isinstance(getattr(x, 'data'), list):
        return [norm(y, d + 1) for y in x.data]
    return '<%s>' % type(x).__name__


def run(mod, harness, params, inputs, root, known=()):
    env = ConcEnv(inputs, root, known)
    m = importlib.import_module(mod)
    res = {'fails': env.fails, 'covers': env.covers, 'obs': None, 'end': 'ok'}
    try:
        r = getattr(m, harness)(env, *params)
        res['obs'] = norm(r)
        if env._seen:
            res['seen'] = env._seen
    except Fail:
        res['end'] = 'fail'
    except Cut:
        res['end'] = 'cut'
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if isinstance(e, RecursionError):
            env.fails.append('exception:RecursionError')
        else:
            import traceback
            env.fails.append('exception:%s' % type(e).__name__)
            res['trace'] = traceback.format_exc(limit=-6)
        res['end'] = 'exc'
    return res
