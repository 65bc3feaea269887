#!/usr/bin/env python3
"""Systematic small changes of /repo: lists those on which every check that analyses the function stays quiet (not used by any check).

usage: mutate.py [-f FUNCTION-TEXT] [-o OPERATOR,...] [-p PID,...] [--tests]      Scratch copies under /tmp are removed.
With --tests a change that the tests of the repository notice is not listed (they run as an unprivileged user in the scratch copy).
A listed change is either harmless, outside every property, or a gap; each has to be looked at.
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, warnings
from concurrent.futures import ThreadPoolExecutor
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
CHECK = os.path.join(V, 'sa', 'check.py')
REPO = '/repo'
sys.path.insert(0, HERE)
from auto import parse_all, BLOCKS
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def is_log(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and 'log' in ast.unparse(n.func.value).lower() and n.func.attr in ('debug', 'info', 'warning', 'error', 'exception', 'critical')


def sites(tree):
    """(function name, node, parent, field, index)"""
    def walk(n, q, par, fld, idx):
        if is_log(n):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = q + [n.name]
        yield '.'.join(q), n, par, fld, idx
        if isinstance(n, ast.Raise):
            if isinstance(n.exc, ast.Call):
                return
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        yield from walk(x, q, n, f, i)
            elif isinstance(v, ast.AST):
                yield from walk(v, q, n, f, None)
    for i, s in enumerate(tree.body):
        yield from walk(s, [], tree, 'body', i)


def muts(n, par, fld):
    """[(operator, replacement nodes)] of one node"""
    C = copy.deepcopy
    out = []
    stmt = isinstance(n, ast.stmt)
    if stmt and fld in BLOCKS:
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)) or isinstance(n, ast.Expr) and not is_log(n.value):
            out.append(('drop', [ast.Pass()]))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            out.append(('return-none', [ast.Return(ast.Constant(None))]))
        if isinstance(n, ast.Return) and n.value is None:
            out.append(('drop', [ast.Pass()]))
        if isinstance(n, ast.If):
            for k, v in (('if-true', True), ('if-false', False)):
                m = C(n)
                m.test = ast.Constant(v)
                out.append((k, [m]))
        if isinstance(n, ast.For):
            m = C(n)
            m.body.append(ast.Break())
            out.append(('first-only', [m]))
            m = C(n)
            m.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [m.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
            out.append(('not-first', [m]))
        if isinstance(n, ast.With):
            out.append(('no-with', C(n).body))
        if isinstance(n, ast.Try):
            if n.handlers:
                m = C(n)
                m.handlers = []
                out.append(('no-except', [m] if m.finalbody else m.body + m.orelse))
                m = C(n)
                for h in m.handlers:
                    if isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException'):
                        h.type = ast.Name('ValueError', ast.Load())
                        out.append(('except-less', [m]))
                        break
            if n.finalbody:
                m = C(n)
                fb, m.finalbody = m.finalbody, []
                out.append(('no-finally', [m] + fb if m.handlers else m.body + fb))
    if isinstance(n, ast.ExceptHandler) and not all(isinstance(x, ast.Pass) for x in n.body):
        m = C(n)
        m.body = [ast.Pass()]
        out.append(('except-pass', m))
        if not (len(n.body) == 1 and isinstance(n.body[0], ast.Raise)):
            m = C(n)
            m.body = [ast.Raise()]
            out.append(('except-raise', m))
    if isinstance(n, ast.BoolOp):
        m = C(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        out.append(('and-or', m))
        for i in range(len(n.values)):
            rest = C(n.values[:i] + n.values[i + 1:])
            out.append(('drop-operand', rest[0] if len(rest) == 1 else ast.BoolOp(C(n.op), rest)))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        m = C(n)
        m.ops = [SWAP[type(n.ops[0])]()]
        out.append(('compare', m))
    if isinstance(n, ast.Compare) and len(n.ops) == 2:
        for i in (0, 1):
            m = C(n)
            m.ops[i] = SWAP[type(n.ops[i])]()
            out.append(('compare', m))
    if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
        m = C(n)
        m.op = SWAP[type(n.op)]()
        out.append(('arith', m))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        out.append(('no-not', C(n.operand)))
    if isinstance(n, ast.Constant) and not isinstance(par, (ast.JoinedStr, ast.FormattedValue)):
        if isinstance(n.value, bool):
            out.append(('constant', ast.Constant(not n.value)))
        elif isinstance(n.value, (int, float)):
            out.append(('constant', ast.Constant(n.value + 1)))
        elif isinstance(n.value, str) and n.value:
            out.append(('constant', ast.Constant(n.value + 'x')))
    if isinstance(n, ast.Call):
        for i, k in enumerate(n.keywords):
            m = C(n)
            del m.keywords[i]
            out.append(('drop-keyword', m))
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            m = C(n)
            m.args[0], m.args[1] = m.args[1], m.args[0]
            out.append(('swap-args', m))
        if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)) and not isinstance(par, ast.Expr):
            out.append(('unwrap', C(n.args[0])))
        if not n.args and not n.keywords and isinstance(n.func, ast.Attribute) and not isinstance(par, ast.Expr):
            out.append(('unwrap-method', C(n.func.value)))
    if isinstance(n, ast.IfExp):
        out.append(('if-exp', C(n.body)))
        out.append(('if-exp', C(n.orelse)))
    if isinstance(n, ast.comprehension) and n.ifs:
        m = C(n)
        m.ifs = []
        out.append(('no-filter', m))
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
        out.append(('no-slice', C(n.value)))
    return out


def all_mutants(trees):
    for p, tree in sorted(trees.items()):
        todo = []
        for q, n, par, fld, idx in sites(tree):
            for op, rep in muts(n, par, fld):
                todo.append((q, n, par, fld, idx, op, rep))
        for q, n, par, fld, idx, op, rep in todo:
            old = getattr(par, fld)
            if idx is None:
                setattr(par, fld, rep)
            else:
                new = list(old)
                new[idx:idx + 1] = rep if isinstance(rep, list) else [rep]
                setattr(par, fld, new)
            try:
                t2 = ast.fix_missing_locations(copy.deepcopy(tree))
                src = ast.unparse(t2) + '\n'
                compile(src, p, 'exec')
            except Exception:
                src = None
            setattr(par, fld, old)
            if src is not None:
                yield p, q, getattr(n, 'lineno', getattr(par, 'lineno', 0)), op, ast.unparse(n).split('\n')[0], src


TESTS = '--tests' in sys.argv


def tests_pass(d):
    shutil.copytree(os.path.join(REPO, 'tests'), d + '/tests', ignore=shutil.ignore_patterns('__pycache__'))
    for x in ('home', 'tmp'):
        os.mkdir(os.path.join(d, x))
    subprocess.run(['chown', '-R', 'nobody', d], check=True)
    env = dict(PATH=os.environ['PATH'], HOME=d + '/home', TMPDIR=d + '/tmp', PYTHONPATH=d, TZ='Asia/Shanghai', LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    dirs = sorted({os.path.dirname(os.path.join(r, f)) for r, _, fs in os.walk(d + '/tests') for f in fs if f.startswith('test_') and f.endswith('.py')})
    for w in dirs:
        fs = sorted(f for f in os.listdir(w) if f.startswith('test_') and f.endswith('.py'))
        r = subprocess.run(['setpriv', '--reuid', '65534', '--regid', '65534', '--clear-groups', 'timeout', '-k', '5', '60', '/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider',
                            '--rootdir=' + d] + fs, cwd=w, env=env, capture_output=True)
        if r.returncode:
            return False
    return True


def run(job):
    p, q, line, op, text, src, pids = job
    d = tempfile.mkdtemp(prefix='mutate')
    try:
        shutil.copytree(os.path.join(REPO, 'jqtrade'), d + '/jqtrade', ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(d, p), 'w', encoding='utf-8').write(src)
        und = []
        for pid in pids:
            try:
                r = subprocess.run([sys.executable, CHECK, pid, '--repo', d], env=dict(os.environ, VERIF_EVIDENCE_DIR=d), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                und.append(pid + ':T')
                continue
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                return job, pid, und
            if r.returncode:
                und.append(pid + ':E')
            try:
                k = json.load(open(os.path.join(d, pid + '.json')))['coverage'].get('undecided')
                k = len(k) if isinstance(k, (list, dict)) else k
                if k:
                    und.append('%s:%s' % (pid, k))
            except Exception:
                pass
        if TESTS and not tests_pass(d):
            return job, 'tests', und
        return job, None, und
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]

    def opt(n, dflt=None):
        return a[a.index(n) + 1] if n in a else dflt
    man = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
    pids = opt('-p').split(',') if opt('-p') else man
    ops = opt('-o').split(',') if opt('-o') else None
    an = {}
    for p in pids:
        an[p] = json.load(open(os.path.join(V, 'evidence', p + '.json')))['coverage']['functions_analysed']
    jobs, alone = [], 0
    for p, q, line, op, text, src in all_mutants(parse_all()):
        mod = p[:-3].replace('/', '.')
        full = (mod + '.' + q).rstrip('.')
        if opt('-f', '') not in full or ops and op not in ops:
            continue
        use = [x for x in pids if any(y == full or y.startswith(full + '.') or full.startswith(y + '.') for y in an[x])]
        jobs.append((p, full, line, op, text, src, use))
    print(len(jobs), 'mutants', flush=True)
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for job, pid, und in ex.map(run, jobs):
            if pid is None:
                n += 1
                print('%s:%s %s [%s] %s%s   %s' % (job[0], job[2], job[1].split('.', 2)[-1], job[3], job[4][:90], '' if job[6] else '   (unwatched)', ' '.join(und)), flush=True)
    print(n, 'of', len(jobs), 'not reported')


if __name__ == '__main__':
    main()
