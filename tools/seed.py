"""Creates and verifies planted bugs: seed.py [--make] [--verify] [--check] [--only ID,..]

--make    writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from tools/seeds.py
--verify  build, stable tests and demonstration, with and without the change (uses /repo, restores it)
--check   runs the check of the property against a copy with the change
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS, PRELUDE  # noqa: E402

SH = '#!/bin/bash\n# run with cwd = repository\nexport PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def mutate(s, root):
    for f, old, new in s['edits']:
        p = os.path.join(root, 'oelint_parser', f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit('%s: %d matches of %r in %s' % (s['id'], t.count(old), old, f))
        open(p, 'w').write(t.replace(old, new))


def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed')
    try:
        sh('git', '-C', R, 'worktree', 'list')
        sh('bash', '-c', 'git -C %s archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a commit -qm a' % (R, t, t))
        mutate(s, t)
        diff = sh('git', '-C', t, 'diff').stdout
        assert diff
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + s['demo'].strip('\n') + '\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def origin(s):
    """changed lines have to be lines of the original repository"""
    base = sh('git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD').stdout.strip()[:7]
    bad = []
    cur = None
    n = 0
    for l in open(os.path.join(V, 'seeded', s['id'], 'patch.diff')):
        if l.startswith('--- a/'):
            cur = l[6:].strip()
            blame = sh('git', '-C', R, 'blame', '-s', cur).stdout.splitlines()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif cur and l[:1] in ' -':
            if l[0] == '-' and not l.startswith('---') and base not in blame[n].split()[0]:
                bad.append(blame[n])
            n += 1
    return bad


def verify(s):
    d = os.path.join(V, 'seeded', s['id'])
    assert not sh('git', '-C', R, 'status', '--porcelain').stdout
    demo = lambda: sh('bash', os.path.join(d, 'demo.sh'), cwd=R, timeout=300)   # noqa: E731
    a = demo()
    if a.returncode:
        return 'demo fails on the unchanged tree: ' + (a.stdout + a.stderr)[-400:]
    r = sh('git', '-C', R, 'apply', os.path.join(d, 'patch.diff'))
    if r.returncode:
        return 'does not apply: ' + r.stderr
    try:
        r = sh('bash', '/opt/vp/build.sh')
        if r.returncode:
            return 'build fails'
        b = demo()
        if not b.returncode:
            return 'demo passes with the change'
        sh('bash', '/opt/vp/test.sh', '/tmp/seed-out.json')
        o = json.load(open('/tmp/seed-out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = lambda x: set(next(x[k] for k in ('passed', 'stable', 'tests', 'pass') if isinstance(x.get(k), list)))   # noqa: E731
        miss = sorted(names(base) - names(o))
        if miss:
            return 'tests notice: ' + ', '.join(miss[:3])
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
    bad = origin(s)
    return 'ok' + ('' if not bad else ' BUT changes own lines: ' + bad[0])


def check(s):
    t = tempfile.mkdtemp(prefix='seed')
    try:
        sh('bash', '-c', 'git -C %s archive HEAD | tar -x -C %s' % (R, t))
        mutate(s, t)
        r = sh('python3-vt', 'check.py', s['property'], cwd=V, env=dict(os.environ, VERIF_REPO=t))
        out = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
        tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
        return '%s  %s' % ('CAUGHT' if r.returncode == 1 and out else 'MISSED rc %d' % r.returncode, tail[:160])
    finally:
        shutil.rmtree(t)


def main():
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
    for s in SEEDS:
        if only and s['id'] not in only and s['property'] not in only:
            continue
        if '--make' in sys.argv:
            make(s)
        if '--verify' in sys.argv:
            print('%-28s %s verify %s' % (s['id'], s['property'], verify(s)), flush=True)
        if '--check' in sys.argv:
            print('%-28s %s %s' % (s['id'], s['property'], check(s)), flush=True)


main()
