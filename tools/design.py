#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_front.md, properties.jsonl, the evidence files and seeded/ (not used by any check)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *p: os.path.join(V, *p)
props = [json.loads(l) for l in open(J('properties.jsonl'), encoding='utf-8') if l.strip()]
man = json.load(open(J('MANIFEST.json'), encoding='utf-8'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
catches = json.load(open(J('tools', 'catches.json'), encoding='utf-8')) if os.path.exists(J('tools', 'catches.json')) else {}
out = [open(J('tools', 'design_front.md'), encoding='utf-8').read().rstrip(), '']
for l in open(J('known_findings.txt'), encoding='utf-8'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l.strip())
    if m:
        out.append('* %s (%s): %s' % (m.group(2), m.group(1), m.group(3)))
out += ['', '## 5. The properties and how each is decided', '']
bugs = {}
for b in sorted(os.listdir(J('seeded'))):
    bugs.setdefault(json.load(open(J('seeded', b, 'meta.json'), encoding='utf-8'))['property'], []).append(b)
for p in props:
    i = p['id']
    out.append('### %s  %s' % (i, p['title']))
    out += ['', p['statement'], '']
    if i in na:
        out += ['Not applicable: ' + na[i], '']
        continue
    e = json.load(open(J('evidence', i + '.json'), encoding='utf-8'))['coverage']
    out.append('Decided over %s; %d functions interpreted, %d obligations under these rules:' % (p['quantifier']['text'], len(e['functions_analysed']), e['obligations']))
    out.append('')
    for k, t in e['rules'].items():
        n = sum(1 for x in e['instances'] if x['rule'] == k)
        if k != 'anchor':
            out.append('* **%s**: %s (%d)' % (k, t, n))
    out.append('')
    out.append('Beyond tests: %s Planted: %s.' % (p['why_tests_cant'], ', '.join(bugs.get(i, [])) or 'none'))
    out.append('')
out += ['## 6. Planted bugs and the checks that catch them', '',
        'Every planted bug passes the 28 stable tests; its demonstration fails with it and passes without it. "Also" lists checks of other properties that report the same change.', '',
        '| bug | needs | caught by | rule | also |', '|---|---|---|---|---|']
for b in sorted(os.listdir(J('seeded'))):
    m = json.load(open(J('seeded', b, 'meta.json'), encoding='utf-8'))
    c = catches.get(b, [])
    own = [r for p, r in c if p == m['property']]
    out.append('| %s | %s | %s | %s | %s |' % (b, m['needs'].replace('|', '/'), m['property'] if own else '**missed**', own[0] if own else '', ' '.join(p for p, _ in c if p != m['property'])))
out += ['', open(J('tools', 'design_back.md'), encoding='utf-8').read().rstrip(), '']
open(J('DESIGN.md'), 'w', encoding='utf-8').write('\n'.join(out))
print(len(out), 'lines')
