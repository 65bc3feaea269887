#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts (not used by any check)."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
TECH = 'static analysis: guarded value-flow (gated SSA) abstract interpretation of the source with ordering, typestate and provenance rules'
out, checks, na = [], [], []
for m in ('props_sched', 'props_cli', 'props_acct', 'props_na'):
    if not os.path.exists(os.path.join(V, 'tools', m + '.py')):
        continue
    mod = importlib.import_module(m)
    for d in mod.P:
        out.append({'id': d['id'], 'title': d['title'], 'statement': d['statement'],
                    'quantifier': {'over': d['over'], 'text': d['text']}, 'why_tests_cant': d['why'],
                    'anchors': {'files': d['files'], 'mechanism': [{'name': n, 'where': w} for n, w in d['mech']], 'hook_needed': None}})
        assert len(d['title']) <= 80, d['title']
        assert len(re.split(r'(?<=[a-z0-9)])\. ', d['statement'])) <= 3, d['id']
        if d.get('na'):
            na.append({'property': d['id'], 'reason': d['na']})
            continue
        cmd = '/usr/local/bin/python3 sa/check.py %s' % d['id']
        checks.append({'property': d['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': d['tech'] or TECH, 'level': 'other',
                       'level_note': d['note'] or 'Decided on the current source for all inputs the rules quantify over; no execution. Assumes the documented behaviour of '
                       'Python and of the external libraries, and that code is not patched at run time. Constructs the analysis cannot interpret are reported as undecided.'})
with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump({'version': 1, 'setup_cmd': '/usr/local/bin/python3 sa/setup.py', 'checks': checks, 'not_applicable': na}, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(out), 'properties', len(checks), 'checks', len(na), 'not applicable')
