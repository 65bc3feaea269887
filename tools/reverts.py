#!/usr/bin/env python3
"""which checks report the defect again when a fix commit is taken back (scratch copies; not used by any check)
usage: reverts.py [COMMIT ...]"""
import os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
run = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, **k)
cs = sys.argv[1:] or [l.split()[0] for l in run('git', '-C', '/repo', 'log', '--format=%h %s').stdout.split('\n') if ' fix:' in l]
ids = [c['property'] if 'property' in c else c['id'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def one(c):
    d = tempfile.mkdtemp(prefix='rv')
    try:
        run('git', 'clone', '-q', '/repo', d + '/r')
        r = run('git', '-C', d + '/r', '-c', 'user.name=x', '-c', 'user.email=x', 'revert', '--no-commit', c)
        if r.returncode:
            return c, 'cannot be reverted alone'
        out = []
        for i in ids:
            q = run(sys.executable, V + '/sa/check.py', i, '--repo', d + '/r', env=dict(os.environ, VERIF_EVIDENCE_DIR=d))
            if q.returncode:
                out.append(i if q.returncode == 1 else '%s(exit %d)' % (i, q.returncode))
        return c, ' '.join(out) or '-'
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(8) as ex:
    for c, o in ex.map(one, cs):
        print(c, run('git', '-C', '/repo', 'log', '-1', '--format=%s', c).stdout.strip()[5:75], '|', o, flush=True)
