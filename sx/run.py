"""Driver: explores all units of a property in parallel and writes its evidence."""
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
if '/opt/venv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/venv/lib/python3.12/site-packages')

from . import core, env, instr, rx   # noqa: E402

VENV_PY = '/opt/venv/bin/python'
VERIF = env.VERIF
REPO = env.REPO


class Replayer:
    def __init__(self, hashseed='0'):
        self.hashseed = hashseed
        self.p = None

    def start(self):
        e = dict(os.environ, PYTHONHASHSEED=self.hashseed, PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([VENV_PY, os.path.join(VERIF, 'sx', 'replay_server.py'), REPO, VERIF],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, stderr=subprocess.DEVNULL)

    def run(self, unit, inputs, root, timeout=10, known=()):
        if self.p is None:
            self.start()
        req = {'mod': unit[0], 'harness': unit[1], 'params': unit[2], 'inputs': inputs, 'root': root,
               'timeout': timeout, 'known': list(known)}
        self.p.stdin.write((json.dumps(req) + '\n').encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise core.EngineError('replay server died')
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


HASHSEEDS = tuple(str(x) for x in range(1, 17))


def across_seeds(unit, inputs, root, hang_s=10, known=()):
    """runs a harness under several hash seeds; fails if a run fails or two runs observe something different"""
    first = None
    for s in HASHSEEDS:
        r = Replayer(s)
        try:
            c = r.run(unit, inputs, root, hang_s, known)
        finally:
            r.close()
        if c.get('fails'):
            return c, s
        if first is None:
            first = c
        elif json.dumps([c.get('obs'), c.get('seen')]) != json.dumps([first.get('obs'), first.get('seen')]):
            return dict(c, fails=['observations differ between hash seeds %s and %s' % (HASHSEEDS[0], s)], other=[first.get('obs'), first.get('seen')]), 'all'
    return first, '0'


class Worker:
    def __init__(self, idx, opts):
        self.idx = idx
        self.opts = opts
        self.base = tempfile.mkdtemp(prefix='sx%02d' % idx, dir=opts['scratch'])
        self.root = self.base + '/w'
        self.rep = Replayer()
        self.rep_t = 0.0

    def explore(self, unit, tasks, slice_s, deadline):
        o = self.opts
        st = core.Stats()
        out = {'fails': [], 'covers': collections.Counter(), 'left': [], 'errors': [], 'mismatch': [], 'validated': 0,
               'ends': collections.Counter(), 'checks': 0, 'samples': [], 'maxdepth': 0, 'pinned': 0, 'unval': 0}
        t0 = time.time()
        rt = 0.0
        stack = list(tasks)
        while stack:
            now = time.time()
            if now > deadline or (now - t0 > slice_s):
                break
            prefix, model = stack.pop()
            r = env.run_path(unit, prefix, model, st, self.root, o['known'], max_ticks=o['max_ticks'])
            stack.extend(r.pending)
            out['ends'][r.end] += 1
            out['checks'] += r.checks
            out['maxdepth'] = max(out['maxdepth'], r.depth)
            out['pinned'] += bool(r.pinned)
            for c in r.covers:
                out['covers'][c] += 1
            if r.error:
                # no verdict for this path; look at its model concretely all the same
                e = {'error': r.error, 'inputs': r.inputs}
                if r.inputs is not None:
                    c = self.replay(unit, r.inputs)
                    if c.get('fails'):
                        out['fails'].append({'msg': c['fails'][0], 'inputs': r.inputs, 'repro': True, 'concrete': c, 'seed': '0'})
                        e = None
                if e:
                    out['errors'].append(e)
            for msg, inp in r.fails:
                if len(out['fails']) >= 12:
                    break
                c, seed = self.confirm(unit, inp)
                out['fails'].append({'msg': msg, 'inputs': inp, 'repro': bool(c.get('fails')), 'concrete': c, 'seed': seed,
                                     'trace': r.trace})
            if r.end == 'ok' and not r.error:
                dt = now - t0
                if out['validated'] < 12 or rt < 0.12 * dt:
                    t1 = time.time()
                    c = self.replay(unit, r.inputs)
                    rt += time.time() - t1
                    out['validated'] += 1
                    if c.get('fails'):
                        out['fails'].append({'msg': c['fails'][0], 'inputs': r.inputs, 'repro': True, 'concrete': c, 'seed': '0',
                                             'note': 'found by the concrete run of a path model'})
                    elif json.dumps(c.get('obs')) != json.dumps(r.obs) or c.get('end') != 'ok':
                        out['mismatch'].append({'inputs': r.inputs, 'sym': r.obs, 'conc': c})
                else:
                    out['unval'] += 1
                if len(out['samples']) < 2:
                    out['samples'].append({'inputs': r.inputs, 'observed': r.obs})
            if len(out['fails']) >= 12:
                break
        out['left'] = [(p, env.ser_model(m) if m else None) for p, m in stack]
        out['covers'] = dict(out['covers'])
        out['ends'] = dict(out['ends'])
        out['stats'] = st.as_dict()
        out['t'] = time.time() - t0
        if len(core._nodes) > 1500000:
            core._nodes.clear()
            core.Lin.table.clear()
            core.Var.table.clear()
            core.MapVar.table.clear()
            core.IntVar.table.clear()
            rx._tables.clear()
            rx._cache.clear()
        return out

    def replay(self, unit, inputs):
        return self.rep.run(unit, inputs, self.root, self.opts['hang_s'], self.opts['known'])

    def confirm(self, unit, inputs):
        c = self.replay(unit, inputs)
        if c.get('fails'):
            return c, '0'
        if self.opts.get('hashseeds'):
            c2, seed = across_seeds(unit, inputs, self.root, self.opts['hang_s'], self.opts['known'])
            if c2.get('fails'):
                return c2, seed
        return c, '0'

    def close(self):
        self.rep.close()
        shutil.rmtree(self.base, ignore_errors=True)


def _worker_main(idx, opts, units, tq, rq):
    sys.setrecursionlimit(3500)
    w = Worker(idx, opts)
    funcs = FUNCS
    try:
        while True:
            t = tq.get()
            if t is None:
                break
            ui, tasks, deadline = t
            tasks = [(p, env.deser_model(m) if m else None) for p, m in tasks]
            try:
                out = w.explore(units[ui], tasks, opts['slice'], deadline)
            except BaseException as e:      # noqa: B902
                import traceback
                out = {'crash': traceback.format_exc(limit=-12)}
                if isinstance(e, KeyboardInterrupt):
                    break
            out['funcs'] = sorted(funcs)
            rq.put((idx, ui, out))
    finally:
        w.close()
        rq.put((idx, None, None))


FUNCS = set()


def _record_funcs():
    orig = instr.SX.call.__func__ if hasattr(instr.SX.call, '__func__') else instr.SX.call

    import types

    seen = set()

    def hook(f):
        c = getattr(f, '__code__', None)
        if c is not None and c not in seen:
            seen.add(c)
            fn = c.co_filename
            if '/oelint_parser/' in fn:
                FUNCS.add('%s:%s' % (fn.split('/oelint_parser/')[-1], f.__qualname__))
            elif '/lib/python' in fn:
                FUNCS.add('stdlib %s:%s' % (os.path.basename(fn), f.__qualname__))

    def call(f, /, *a, **k):
        t = type(f)
        if t is types.FunctionType:
            hook(f)
        elif t is types.MethodType:
            hook(f.__func__)
        elif t is type:
            i = f.__dict__.get('__init__')
            if i is not None:
                hook(i)
        return orig(f, *a, **k)
    instr.SX.call = staticmethod(call)
    mkc = instr.make_cache


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k.get('property') == pid]


def main(pid, tier=None, seed=None, only=None, verbose=False, cap=None, procs=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    modname = 'props.' + pid.lower()
    mod = importlib.import_module(modname)
    units = [(modname, h, json.loads(json.dumps(p))) for h, p in mod.units(tier)]
    if only:
        units = [u for u in units if only in u[1] or only in json.dumps(u[2])]
    cap = cap or float(os.environ.get('VERIF_CAP', 0)) or (getattr(mod, 'CAP', {}).get(tier) or (600 if tier == 'quick' else 3000))
    deadline = t0 + cap
    known = load_known(pid)
    scratch = tempfile.mkdtemp(prefix='sxv')
    opts = {'scratch': scratch, 'known': [k['id'] for k in known], 'max_ticks': getattr(mod, 'MAX_TICKS', 60000),
            'slice': 4.0, 'hang_s': getattr(mod, 'HANG_S', 10), 'hashseeds': getattr(mod, 'HASHSEEDS', False)}
    _record_funcs()
    nproc = procs or max(1, min(8, os.cpu_count() or 1))
    tq, rq = mp.Queue(), mp.Queue()
    ps = [mp.Process(target=_worker_main, args=(i, opts, units, tq, rq), daemon=True) for i in range(nproc)]
    for p in ps:
        p.start()

    agg = {'stats': collections.Counter(), 'covers': collections.Counter(), 'ends': collections.Counter(), 'fails': [], 'errors': [],
           'mismatch': [], 'validated': 0, 'checks': 0, 'funcs': set(), 'samples': [], 'maxdepth': 0, 'pinned': 0, 'unval': 0}
    per = collections.defaultdict(lambda: collections.Counter())
    rnd = random.Random(seed)
    order = list(range(len(units)))
    # biggest shapes first would be ideal; a seeded shuffle keeps it fair
    rnd.shuffle(order)
    backlog = collections.deque((ui, [([], None)]) for ui in order)
    busy = 0
    crashed = []
    stop = False
    incomplete_units = set()
    while busy < nproc * 2 and backlog:
        ui, tk = backlog.popleft()
        tq.put((ui, tk, deadline))
        busy += 1
    last = time.time()
    while busy:
        try:
            idx, ui, out = rq.get(timeout=max(60, 4 * opts['slice']))
        except Exception:
            if time.time() > deadline + 60 or not any(p.is_alive() for p in ps):
                crashed.append('workers stuck')
                break
            continue
        if ui is None:
            crashed.append('worker %d exited' % idx)
            break
        busy -= 1
        if 'crash' in out:
            crashed.append(out['crash'])
            incomplete_units.add(ui)
        else:
            agg['stats'].update(out['stats'])
            agg['covers'].update(out['covers'])
            agg['ends'].update(out['ends'])
            for k in ('validated', 'checks', 'pinned', 'unval'):
                agg[k] += out[k]
            agg['maxdepth'] = max(agg['maxdepth'], out['maxdepth'])
            for k in ('fails', 'errors', 'mismatch'):
                for x in out[k]:
                    x['unit'] = units[ui]
                    agg[k].append(x)
            if len(agg['samples']) < 6 and out['samples']:
                agg['samples'].append({'harness': units[ui][1], 'params': units[ui][2], **out['samples'][0]})
            agg['funcs'].update(out['funcs'])
            per[ui]['paths'] += out['stats']['paths']
            per[ui]['checks'] += out['checks']
            per[ui]['t'] += out['t']
            left = out['left']
            good = {(f['unit'][1], f['msg']) for f in agg['fails'] if f['repro']}
            if len(good) >= 4 or len(agg['fails']) >= 40:
                stop = True
            if left:
                if stop or time.time() > deadline:
                    incomplete_units.add(ui)
                else:
                    # hand the oldest prefixes (largest subtrees) out in several chunks
                    n = min(len(left), nproc)
                    for i in range(n):
                        ch = left[i::n]
                        backlog.append((ui, ch))
        if verbose and time.time() - last > 5:
            last = time.time()
            print('[%5.0fs] paths %d queries %d backlog %d fails %d err %d' % (
                last - t0, agg['stats']['paths'], agg['stats']['queries'], len(backlog), len(agg['fails']), len(agg['errors'])), file=sys.stderr)
        if time.time() > deadline or stop:
            incomplete_units.update(u for u, _ in backlog)
            backlog.clear()
        while busy < nproc * 2 and backlog:
            ui, tk = backlog.popleft()
            tq.put((ui, tk, deadline))
            busy += 1
    for _ in ps:
        tq.put(None)
    t_end = time.time() + 10
    for p in ps:
        p.join(max(0.1, t_end - time.time()))
        if p.is_alive():
            p.terminate()
    shutil.rmtree(scratch, ignore_errors=True)
    return finish(pid, mod, tier, seed, t0, units, agg, per, incomplete_units, crashed, known, verbose)


def finish(pid, mod, tier, seed, t0, units, agg, per, incomplete_units, crashed, known, verbose):
    out_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(out_dir, exist_ok=True)
    st = agg['stats']
    good = [f for f in agg['fails'] if f['repro']]
    bad = [f for f in agg['fails'] if not f['repro']]
    rc = 0
    lines = []
    # -- known findings: replay their witnesses
    for k in known:
        r = Replayer(str(k.get('hashseed', '0')))
        d = tempfile.mkdtemp(prefix='sxk')
        try:
            c = r.run(tuple(k['unit']), k['inputs'], d + '/w', 10, ())
        finally:
            r.close()
            shutil.rmtree(d, ignore_errors=True)
        if c.get('fails'):
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    seen = set()
    rdir = os.path.join(out_dir, 'replay')
    n = 0
    for f in good:
        key = (f['unit'][1], f['msg'])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        n += 1
        path = os.path.join(rdir, '%s-%d.json' % (pid, n))
        with open(path, 'w') as o:
            json.dump({'property': pid, 'unit': f['unit'], 'inputs': f['inputs'], 'msg': f['msg'], 'hashseed': f.get('seed', '0'),
                       'concrete': f['concrete']}, o, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        lines.append('  %s%s: %s  inputs=%s' % (f['unit'][1], json.dumps(f['unit'][2]), f['msg'], json.dumps(f['inputs'])[:600]))
        rc = 1
    undecided = len(agg['errors'])
    if not rc:
        if bad:
            rc = 2
            lines.append('ERROR: %d counterexample(s) of the encoding do not reproduce on the real code, e.g. %s' % (
                len(bad), json.dumps(bad[0])[:1500]))
        elif agg['mismatch']:
            rc = 2
            lines.append('ERROR: %d path(s) where encoding and real run differ, e.g. %s' % (
                len(agg['mismatch']), json.dumps(agg['mismatch'][0])[:1500]))
        elif crashed:
            rc = 2
            lines.append('ERROR: ' + crashed[0])
        elif agg['checks'] == 0:
            rc = 2
            lines.append('ERROR: no assertion was reached (%s)' % (agg['errors'][:1],))
    if undecided:
        lines.append('INCONCLUSIVE: %d of %d paths could not be encoded (replayed concretely only), e.g. %s' % (
            undecided, st['paths'], agg['errors'][0]['error'][:3000]))
    missing = [c for c in getattr(mod, 'COVERS', []) if not agg['covers'].get(c)]
    if missing and not incomplete_units and rc == 0:
        lines.append('NOTE: situations never reached: %s' % ', '.join(missing))
        if getattr(mod, 'COVERS_STRICT', False):
            rc = 2
    complete = not incomplete_units and not st['incomplete'] and not undecided
    wall = time.time() - t0
    cov = {
        'explanation': getattr(mod, 'EXPLAIN', mod.__doc__ or ''),
        'technique': 'symbolic execution of the real source (instrumented from the working tree), every branch and assertion decided by z3',
        'evaluations': st['paths'],
        'distinct_nontrivial': agg['ends'].get('ok', 0) + agg['ends'].get('fail', 0),
        'rule': 'one evaluation = one symbolic path (set of inputs with the same branch outcomes) of one harness configuration; '
                'non-trivial = it ran to the end of the harness past at least one assertion, paths are disjoint by construction',
        'exhaustive': complete,
        'configurations': len(units),
        'configurations_not_exhausted': len(incomplete_units),
        'paths': st['paths'],
        'path_ends': dict(agg['ends']),
        'branch_decisions': st['branches'],
        'assertions_reached': agg['checks'],
        'assertion_queries': st['assert_queries'],
        'solver_queries': st['queries'],
        'solver_sat': st['sat'],
        'solver_unsat': st['unsat'],
        'solver_seconds': round(st['solver_s'], 3),
        'solver': 'z3 ' + __import__('z3').get_version_string(),
        'max_decisions_on_a_path': agg['maxdepth'],
        'concretisation_fallbacks': st['pins'],
        'undecided_paths': undecided,
        'path_models_replayed_on_real_code': agg['validated'],
        'path_models_not_replayed': agg['unval'],
        'replay_mismatches': len(agg['mismatch']),
        'situations_reached': dict(agg['covers']),
        'situations_missing': missing,
        'functions_encoded': sorted(agg['funcs']),
        'bounds': getattr(mod, 'BOUNDS', {}).get(tier) if isinstance(getattr(mod, 'BOUNDS', None), dict) else getattr(mod, 'BOUNDS', ''),
        'samples': agg['samples'],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2),
          'violations': len(seen)}
    with open(os.path.join(out_dir, pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    for l in lines:
        print(l)
    print('%s %s: %d configurations, %d paths, %d checks, %d queries (%.1fs solver), %d replayed, %s, %.1fs wall -> exit %d' % (
        pid, tier, len(units), st['paths'], agg['checks'], st['queries'], st['solver_s'], agg['validated'],
        'exhaustive within bounds' if complete else 'NOT exhausted (%d configurations left)' % len(incomplete_units), wall, rc))
    if verbose:
        for ui, c in sorted(per.items(), key=lambda x: -x[1]['t'])[:15]:
            print('   %-60s paths %6d checks %6d %.1fs' % (units[ui][1] + json.dumps(units[ui][2]), c['paths'], c['checks'], c['t']), file=sys.stderr)
        shown = collections.Counter()
        for f in agg['fails']:
            shown[f['msg'], f['repro']] += 1
            if shown[f['msg'], f['repro']] <= 2:
                print('   FAIL', f['unit'][1:], f['msg'], 'REPRODUCED' if f['repro'] else 'NOT REPRODUCED', f['inputs'],
                      (f['concrete'] or {}).get('trace', '') if f['repro'] else f.get('trace') or '', file=sys.stderr)
    sys.stdout.flush()
    return rc
