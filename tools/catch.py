#!/usr/bin/env python3
"""Runs every check on every planted bug (scratch copies under /tmp) and writes tools/catches.json (not used by any check)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, 'tools', 'catches.json')
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
pids = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]


def one(bid):
    d = tempfile.mkdtemp(prefix='catch')
    try:
        shutil.copytree('/repo/jqtrade', d + '/jqtrade', ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, os.path.join(V, 'seeded', bid, 'patch.diff')], check=True, cwd='/')
        out = []
        for pid in pids:
            r = subprocess.run([sys.executable, os.path.join(V, 'sa', 'check.py'), pid, '--repo', d], env=dict(os.environ, VERIF_EVIDENCE_DIR=d), capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION property=%s ' % pid in r.stdout:
                rule = ''
                for l in r.stdout.split('\n'):
                    if l.strip().startswith('rule '):
                        rule = l.strip()[5:].split(' (')[0]
                        break
                out.append([pid, rule])
        return bid, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


res = json.load(open(OUT)) if sys.argv[1:] and os.path.exists(OUT) else {}
with ThreadPoolExecutor(8) as ex:
    for bid, out in ex.map(one, ids):
        own = json.load(open(os.path.join(V, 'seeded', bid, 'meta.json')))['property']
        res[bid] = out
        if own not in [p for p, _ in out]:
            print('NOT CAUGHT by its own check:', bid, own, out)
json.dump(dict(sorted(res.items())), open(OUT, 'w'), indent=0, ensure_ascii=False)
print(len(res), 'bugs')
