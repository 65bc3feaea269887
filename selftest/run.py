#!/usr/bin/env python3
"""Self-test of the checks: small source changes that break a property ('bad') or keep it ('same').

usage: run.py [PROPERTY ...] [-k TEXT]     (not used by any check; scratch copies under /tmp are removed)
Each entry of mutants.py is (name, properties, kind, [(file, old, new), ...]).
"""
import os, shutil, subprocess, sys, tempfile, warnings
from concurrent.futures import ThreadPoolExecutor
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import MUTANTS
CHECK = os.path.join(os.path.dirname(HERE), 'sa', 'check.py')


def one(m, pid):
    name, props, kind, edits = m
    d = tempfile.mkdtemp(prefix='selftest')
    try:
        shutil.copytree('/repo/jqtrade', d + '/jqtrade', ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = d + '/jqtrade/' + f
            s = open(p, encoding='utf-8').read()
            if old not in s:
                return name, pid, kind, 'STALE', old
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        for f in {e[0] for e in edits}:
            try:
                compile(open(d + '/jqtrade/' + f, encoding='utf-8').read(), f, 'exec')
            except SyntaxError as e:
                return name, pid, kind, 'SYNTAX', str(e)
        env = dict(os.environ, VERIF_EVIDENCE_DIR=d)
        r = subprocess.run([sys.executable, CHECK, pid, '--repo', d], env=env, capture_output=True, text=True, timeout=900)
        out = r.stdout + r.stderr
        v = {0: 'quiet', 1: 'ALARM'}.get(r.returncode, 'exit %s' % r.returncode)
        if r.returncode == 1 and 'VIOLATION property=%s ' % pid not in out:
            v = 'exit 1 without verdict'
        return name, pid, kind, v, out
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    k = None
    if '-k' in a:
        k = a[a.index('-k') + 1]
        del a[a.index('-k'):a.index('-k') + 2]
    jobs = [(m, p) for m in MUTANTS for p in m[1] if (not a or p in a) and (k is None or k in m[0])]
    wrong = 0
    with ThreadPoolExecutor(7) as ex:
        for name, pid, kind, v, out in ex.map(lambda j: one(*j), jobs):
            good = v == ('ALARM' if kind == 'bad' else 'quiet')
            und = out.count('UNDECIDED ')
            if not good or und:
                wrong += not good
                print('%-5s %s %s: %s%s' % ('ok' if good else 'WRONG', pid, name, v, ' (%d undecided)' % und if und else ''))
                if k is not None or not good and kind == 'same':
                    print('\n'.join(l[:int(os.environ.get("W", "400"))] for l in out.split('\n')[:14]))
    print('%d runs, %d wrong' % (len(jobs), wrong))


main()
