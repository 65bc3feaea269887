#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/bugs.py and confirms each bug (not used by any check).

usage: plant.py make [ID ...]     write the folders (patch computed on a scratch copy)
       plant.py confirm [ID ...]  demo on /repo: 0; on the patched scratch copy: nonzero; tests of a patched /repo pass; check verdict
"""
import importlib, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
S = os.path.join(V, 'seeded')
PRE = open(os.path.join(V, 'tools', 'demo_pre.py')).read()
SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
export TZ=Asia/Shanghai LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$(pwd)"
exec timeout 120 /opt/venv/bin/python "$D/demo.py"
'''


def bugs():
    import bugs as b
    return b.BUGS


def make(ids):
    for b in bugs():
        if ids and b['id'] not in ids:
            continue
        d = os.path.join(S, b['id'])
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix='plant')
        try:
            w = t + '/w'
            subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
            for f, o, n in b['edits']:
                p = w + '/jqtrade/' + f
                s = open(p, encoding='utf-8').read()
                if s.count(o) != 1:
                    sys.exit('%s: %d matches of %r' % (b['id'], s.count(o), o))
                open(p, 'w', encoding='utf-8').write(s.replace(o, n))
            diff = subprocess.run(['git', '-C', w, 'diff'], check=True, capture_output=True).stdout
            open(d + '/patch.diff', 'wb').write(diff)
            # do the removed lines exist in the original repository?
            orig = {f: subprocess.run(['git', '-C', w, 'show', 'b07129a:jqtrade/' + f], capture_output=True).stdout.decode().splitlines() for f, _, _ in b['edits']}
            cur, allo = None, sum(orig.values(), [])
            minus = [l[1:] for l in diff.decode().splitlines() if l.startswith('-') and not l.startswith('---')]
            fresh = [l for l in minus if l.strip() and l not in allo]
            if fresh or not minus:
                print('%s: lines not in the original: %s' % (b['id'], fresh or 'only additions'))
        finally:
            shutil.rmtree(t)
        open(d + '/demo.py', 'w', encoding='utf-8').write(PRE + b['demo'])
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)


def confirm(ids):
    stable = None
    base = json.load(open('/opt/vp/BASELINE.json'))
    for b in bugs():
        if ids and b['id'] not in ids:
            continue
        d = os.path.join(S, b['id'])
        r0 = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout
        subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
        try:
            r1 = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
            out = tempfile.mktemp()
            if '--notest' in sys.argv:
                n = 'tests not run'
            else:
                subprocess.run(['bash', '/opt/vp/test.sh', out], capture_output=True)
                n = open(out).read()
                res = json.loads(n)
                os.unlink(out)
                n = {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in res.items()}
            env = dict(os.environ, VERIF_EVIDENCE_DIR='/tmp/ev')
            c = subprocess.run(['/usr/local/bin/python3', V + '/sa/check.py', b['property']], capture_output=True, text=True, env=env)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
        print('%s %s demo %d/%d %s tests %s check %s' % (b['id'], b['property'], r0.returncode, r1.returncode,
              'OK' if r0.returncode == 0 and r1.returncode else 'BAD ' + r0.stderr[-600:] + r1.stdout[-300:], n, {0: 'QUIET', 1: 'caught'}.get(c.returncode, c.stdout[-300:])), flush=True)


if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    (make if sys.argv[1] == 'make' else confirm)(ids)
