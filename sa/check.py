#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--repo DIR] [-v]: decide one property on the current source of the repository."""
import json
import os
import resource
import sys
import threading
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True


def props():
    out = {}
    p = os.path.join(VERIF, 'properties.jsonl')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            if l.strip():
                d = json.loads(l)
                out[d['id']] = d
    return out


def decide(pid, root):
    from sa import core
    from sa.rules import Ctx, Check, Undecided, Missing
    checks = {}
    import importlib
    for m in ('r_sched', 'r_sched2', 'r_loop', 'r_cli', 'r_api', 'r_acct', 'r_gate', 'r_opt'):
        try:
            mod = importlib.import_module('sa.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'sa.' + m:
                raise
            continue
        for k, v in mod.CHECKS.items():
            checks.setdefault(k, []).extend(v)
    ctx = Ctx(root)
    chk = Check(ctx, pid)
    chk.cur = 'anchor'
    chk.rule_text['anchor'] = 'the analysed constructs are present and interpretable'
    core.B.deadline = time.time() + 500
    for f in checks[pid]:
        try:
            core.B.budget()
            f(ctx, chk)
            continue
        except Undecided as e:
            msg = str(e)
        except Missing as e:
            msg = 'anchor missing: %s' % e
        except Exception as e:          # this part of the analysis failed: no verdict for it
            msg = 'analysis failed: %s' % ''.join(traceback.format_exception(e)[-4:])
        chk.cur = 'anchor'
        chk.undecided(f.__name__, '', msg)
    return ctx, chk


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    root = '/repo'
    if '--repo' in sys.argv:
        root = sys.argv[sys.argv.index('--repo') + 1]
        a = [x for x in a if x != root]
    verbose = '-v' in sys.argv
    pid = a[0]
    t0 = time.time()
    err = None
    try:
        ctx, chk = decide(pid, root)
    except Exception as e:          # the analysis itself failed: no verdict
        err = 'analysis failed: %s' % ''.join(traceback.format_exception(e))
    if err is not None:
        print('ERROR property=%s %s' % (pid, err))
        sys.exit(2)
    viol, und = [], []
    seen = set()
    for rule, inst, status, where, detail in chk.obls:
        if (rule, inst, status, where) in seen:
            continue
        seen.add((rule, inst, status, where))
        if status == 'violated':
            viol.append((rule, inst, where, detail))
        elif status == 'undecided':
            und.append((rule, inst, where, detail))
        if verbose:
            print('%-9s %s | %s | %s %s' % (status, rule, inst, where, detail))
    from sa.core import B
    funcs, sites, events = set(), set(), 0
    for it in ctx.interps:
        funcs |= {f.qual for f in it.stats['functions']}
        sites |= it.stats['sites']
        events += len(it.events)
    unsup = sorted({str(x) for it in ctx.interps for x in it.stats['unsupported']})
    n = len(chk.obls)
    ev = {
        'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Gated value-flow analysis of the current source of %s (parsed, never executed): every function reachable '
                           'from the roots of this property is interpreted once over guarded symbolic values, joins are merged, loops are '
                           'summarised by one generic iteration; the rules below are decided on the resulting event log.' % root,
            'functions_analysed': sorted(funcs), 'sites': len(sites), 'events': events, 'guard_nodes': len(B.nodes),
            'rules': chk.rule_text,
            'obligations': n, 'discharged': sum(1 for o in chk.obls if o[2] == 'ok'),
            'undecided': [{'rule': r, 'instance': i, 'where': w, 'detail': d[:400]} for r, i, w, d in und],
            'instances': [{'rule': o[0], 'instance': o[1], 'status': o[2], 'where': o[3]} for o in chk.obls][:200],
            'unsupported_constructs': unsup,
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 3),
        'violations': [{'rule': r, 'instance': i, 'where': w, 'detail': d} for r, i, w, d in viol],
    }
    evd = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    path = os.path.join(evd, pid + '.json')
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, path)
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf, encoding='utf-8'):
            l = l.strip()
            if l.startswith('open: property=%s ' % pid):
                known.append(l[len('open: property=%s ' % pid):].split(' | ')[0])
    bad = []
    for r, i, w, d in viol:
        k = '%s/%s' % (r, i)
        if k in known:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, k, d))
        else:
            bad.append((r, i, w, d))
    for r, i, w, d in und:
        print('UNDECIDED property=%s rule=%s [%s] %s: %s' % (pid, r, i, w, d[:300]))
    if bad:
        for r, i, w, d in bad:
            print('  rule %s (%s)\n    %s: %s\n    %s' % (r, chk.rule_text.get(r, ''), w, i, d))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if n and not any(o[2] != 'undecided' for o in chk.obls):
        print('UNDECIDED property=%s: nothing could be decided on this source, no verdict' % pid)
    print('OK property=%s obligations=%d undecided=%d %.1fs' % (pid, n, len(und), time.time() - t0))
    sys.exit(0)


ASSUME = [
    'the package is analysed as written: no monkey patching of jqtrade from outside other than the strategy module API',
    'calls of user code, of the trade gate and of external libraries may raise and (user code) may change any non-final state',
    'pyuv, heapq, portalocker, argparse, psutil and the Python runtime behave as documented',
]

if __name__ == '__main__':
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            main()
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=go)
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    t.start()
    t.join(780)
    if t.is_alive():
        print('UNDECIDED: no verdict within the time limit')
        sys.stdout.flush()
        os._exit(0)
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
