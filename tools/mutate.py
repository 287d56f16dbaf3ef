"""Mutants of the package that the existing tests do not notice: mutate.py OUT.json [jobs]

Every mutant is one small change of the syntax tree; survivors of the test suite are listed with their diff line,
to be reviewed and pushed through the checks (mutate.py --check OUT.json index.. runs the checks on a copy).
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

R = '/repo'
FILES = ['cls_item.py', 'cls_stash.py', 'constants.py', 'inlinerep.py', 'parser.py', 'rpl_regex.py']
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def offsets(text):
    out = [0]
    for l in text.splitlines(True):
        out.append(out[-1] + len(l.encode()))
    return out


def mutants(fn):
    text = open(os.path.join(R, 'oelint_parser', fn)).read()
    raw = text.encode()
    off = offsets(text)
    tree = ast.parse(text)
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def sub(n, new, what):
        a, b = pos(n)
        if raw[a:b].decode() != new:
            out.append({'file': fn, 'a': a, 'b': b, 'new': new, 'line': n.lineno, 'what': what, 'old': raw[a:b].decode()})
    func = {}
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef):
            for x in ast.walk(n):
                func[x] = n.name
            ann = [n.returns] + [a.annotation for a in n.args.args + n.args.kwonlyargs]
            for a in ann:
                if a is not None:
                    for x in ast.walk(a):
                        doc.add(x)
    for n in ast.walk(tree):
        if n not in func or n in doc:
            continue
        k = len(out)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sub(n, '%s %s %s' % (src(n.left), CMP[type(n.ops[0])], src(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            sub(n, '(' + o.join('(%s)' % src(v) for v in n.values) + ')', 'and/or')
            for i in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                sub(n, '(' + o2.join('(%s)' % src(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, '(' + src(n.operand) + ')', 'not')
        elif isinstance(n, ast.Constant) and n.value in (True, False) and isinstance(n.value, bool):
            sub(n, str(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            sub(n, str(n.value + 1), 'int')
            if n.value > 0:
                sub(n, str(n.value - 1), 'int')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            o = ' - ' if isinstance(n.op, ast.Add) else ' + '
            sub(n, src(n.left), 'left operand')
            sub(n, src(n.right), 'right operand')
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', None), (ast.Load, type(None))):
            for i in range(len(n.elts)):
                b = ('[%s]', '(%s,)', '{%s}')[0 if isinstance(n, ast.List) else 1 if isinstance(n, ast.Tuple) else 2]
                sub(n, b % ', '.join(src(v) for j, v in enumerate(n.elts) if j != i), 'drop element')
        elif isinstance(n, (ast.Continue, ast.Break)):
            sub(n, 'pass', 'no ' + type(n).__name__)
            sub(n, 'break' if isinstance(n, ast.Continue) else 'continue', 'swap')
        elif isinstance(n, (ast.Expr, ast.AugAssign)):
            sub(n, 'pass', 'drop statement')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            sub(n, 'pass', 'drop statement')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            sub(n, 'return None', 'return')
        elif isinstance(n, ast.If):
            sub(n.test, 'True', 'if')
            sub(n.test, 'False', 'if')
        elif isinstance(n, ast.IfExp):
            sub(n, '(' + src(n.body) + ')', 'ifexp')
            sub(n, '(' + src(n.orelse) + ')', 'ifexp')
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                sub(c, 'True', 'filter')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in ('strip', 'lstrip', 'rstrip', 'copy', 'lower', 'replace', 'deepcopy', 'sorted', 'removeprefix', 'removesuffix'):
                sub(n, src(n.func.value), 'no ' + n.func.attr)
            if n.func.attr in ('startswith', 'endswith'):
                sub(n, '(%s in %s)' % (src(n.args[0]), src(n.func.value)), 'in')
            if n.func.attr in ('match', 'search'):
                a, b = pos(n.func)
                out.append({'file': fn, 'a': b - len(n.func.attr), 'b': b, 'new': 'search' if n.func.attr == 'match' else 'match', 'line': n.lineno, 'what': 'match/search', 'old': n.func.attr})
            for i in range(len(n.args)):
                pass
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'reversed', 'set', 'list', 'any', 'all') and n.args:
            if n.func.id in ('any', 'all'):
                sub(n.func, 'all' if n.func.id == 'any' else 'any', 'any/all')
            else:
                sub(n, 'list(%s)' % src(n.args[0]), 'list')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            sub(n, src(n.value) + '[:]', 'slice')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) > 2:
            s = src(n)
            if s.startswith(('r', 'f', 'R')):
                seen = 0
                for o, w in (('*?', '*'), ('+?', '+'), ('\\s*', '\\s+'), ('\\s+', '\\s*'), ('.*', '.+'), ('^', ''), ('$', ''), ('|', ''), ('\\w', '[a-z]'), ('+', '')):
                    i = s.find(o)
                    while i >= 0 and seen < 12:
                        sub(n, s[:i] + w + s[i + len(o):], 'regex %s' % o)
                        seen += 1
                        i = s.find(o, i + 1)
        for m in out[k:]:
            m['func'] = func[n]
    # module-level and class-level patterns
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n not in func and n not in doc and src(n).startswith('r'):
            s = src(n)
            for o, w in (('*?', '*'), ('+?', '+'), ('\\s*', '\\s+'), ('\\s+', '\\s*'), ('.*', '.+'), ('^', ''), ('$', ''), ('|', ''), ('+', '')):
                i = s.find(o)
                while i >= 0:
                    sub(n, s[:i] + w + s[i + len(o):], 'regex %s' % o)
                    out[-1]['func'] = '<module>'
                    i = s.find(o, i + 1)
    return out


def apply(m, root):
    p = os.path.join(root, 'oelint_parser', m['file'])
    t = open(p, 'rb').read()
    old = m['old'].encode()
    # the file may have changed since the mutant was made
    at = [i for i in range(len(t)) if t.startswith(old, i)]
    if not at:
        return False
    a = min(at, key=lambda i: abs(i - m['a']))
    t = t[:a] + m['new'].encode() + t[a + len(old):]
    try:
        ast.parse(t)
    except SyntaxError:
        return False
    open(p, 'wb').write(t)
    return True


def tests(m):
    t = tempfile.mkdtemp(prefix='mutant', dir='/tmp/mut')
    try:
        subprocess.run('git -C %s archive HEAD | tar -x -C %s' % (R, t), shell=True)
        if not apply(m, t):
            return None
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-o', 'addopts=', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=t, capture_output=True, text=True, timeout=60,
                               env=dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
        except subprocess.TimeoutExpired:
            return None
        return m if r.returncode == 0 else None
    finally:
        shutil.rmtree(t)


def check(m, props):
    t = tempfile.mkdtemp(prefix='mutant', dir='/tmp/mut')
    try:
        subprocess.run('git -C %s archive HEAD | tar -x -C %s' % (R, t), shell=True)
        apply(m, t)
        for p in props:
            r = subprocess.run(['python3-vt', 'check.py', p], cwd=os.environ.get('VERIF_FROM', '/verif'), capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_REPO=t))
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return p
            if r.returncode not in (0, 1):
                return '%s engine: %s' % (p, (r.stdout + r.stderr)[-300:])
        return ''
    finally:
        shutil.rmtree(t)


MAP = [
    ('inlinerep', '', 'C06'), ('parser', '<module>', 'C03 C04 C31 C05 C14 C01'), ('parser', 'get_items', 'C04 C31 C27 C05 C08 C14 C01'), ('parser', '', 'C03 C05 C01 C07'),
    ('cls_stash', 'ExpandVar', 'C10 C09 C11'), ('cls_stash', '_expand', 'C11 C09'), ('cls_stash', 'AddFile', 'C27 C29 C15 C14 C08 C25'), ('cls_item', 'get_items', 'C19 C04 C05'),
    ('cls_stash', 'GetValidPackageNames', 'C26'), ('cls_stash', 'IsImage', 'C26'), ('cls_stash', 'IsPackageGroup', 'C26'), ('cls_stash', 'IsDynamicPackage', 'C26'), ('cls_stash', 'GetPackagesDynamic', 'C26'),
    ('cls_stash', '_clear_cached', 'C13 C25'), ('cls_stash', 'GetScrComponents', 'C17'), ('cls_stash', '_replace_with_known_mirrors', 'C17'), ('cls_stash', 'GetValidNamedResources', 'C17'), ('cls_stash', 'ExpandTerm', 'C11'),
    ('cls_stash', 'Reduce', 'C12'), ('cls_stash', '__get_items', 'C12'), ('cls_stash', '__is_linked_to', 'C15 C14 C28'), ('cls_stash', 'GetFiles', 'C30'), ('cls_stash', 'FindLocalOrLayer', 'C21'), ('cls_stash', 'GetLayerRoot', 'C21'),
    ('cls_stash', '_filter', 'C12'), ('cls_stash', 'Get', 'C15 C14 C13'), ('cls_stash', 'append', 'C24 C25'), ('cls_stash', 'extend', 'C24 C25'), ('cls_stash', 'Append', 'C25'), ('cls_stash', 'Remove', 'C25'), ('cls_stash', 'Finalize', 'C14 C15 C08'),
    ('cls_stash', '_Move', 'C08'), ('cls_stash', '_Is', 'C15 C08'), ('cls_stash', '_GetLast', 'C08'), ('cls_stash', 'Fingerprint', 'C27'), ('cls_stash', 'AddDistro', 'C29'), ('cls_stash', '_Reverse', 'C07'), ('cls_stash', '<module>', 'C16 C19'),
    ('cls_stash', '__init__', 'C31 C27 C24'), ('cls_stash', '', 'C24 C25'), ('constants', '', 'C20'), ('rpl_regex', '', 'C23'), ('cls_item', '', 'C18 C31 C03 C05 C12'),
]


def props_of(m):
    for f, n, p in MAP:
        if m['file'].startswith(f) and m['func'].startswith(n):
            return p.split()
    return []


def sweep(fn, out, seconds, seed):
    import random
    import time
    ms = json.load(open(fn))
    done = json.load(open(out)) if os.path.exists(out) else {}
    todo = [i for i in range(len(ms)) if str(i) not in done]
    random.Random(seed).shuffle(todo)
    t0 = time.time()
    for i in todo:
        if time.time() - t0 > seconds:
            break
        t = time.time()
        try:
            r = check(ms[i], props_of(ms[i]))
        except subprocess.TimeoutExpired:
            r = 'timeout'
        done[str(i)] = r
        json.dump(done, open(out, 'w'))
        m = ms[i]
        print(i, m['file'], m['line'], m['func'], m['what'], '->', r or 'MISSED', '%.0f s' % (time.time() - t), flush=True)


def main():
    if sys.argv[1] == '--sweep':
        return sweep(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
    if sys.argv[1] == '--check':
        ms = json.load(open(sys.argv[2]))
        for a in sys.argv[3:]:
            i, p = a.split('=')
            m = ms[int(i)]
            print(i, m['file'], m['line'], m['what'], '->', check(m, p.split(',')) or 'MISSED', flush=True)
        return
    ms = [m for f in FILES for m in mutants(f)]
    print(len(ms))
    with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 4) as ex:
        out = [m for m in ex.map(tests, ms) if m]
    json.dump(out, open(sys.argv[1], 'w'), indent=1)
    print(len(out), 'survive')


main()
