#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props/catalog.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(ROOT, 'props', 'catalog.py')).read(), ns)
props, na = ns['PROPS'], ns['NOT_APPLICABLE']
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props + na:
        anchors = {'files': p.get('files', ['mdbx.c']),
                   'mechanism': [{'name': n, 'where': 'mdbx.c'} for n in p['mech']],
                   'observe_at': p.get('observe', []), 'hook_needed': None}
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
checks = []
pend = []
for p in props:
    if not os.path.exists(os.path.join(ROOT, 'props', p['id'] + '.py')):
        pend.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 lib/vf.py check ' + p['id'],
                   'thorough_cmd': 'python3 lib/vf.py check %s --tier thorough' % p['id'],
                   'technique': p.get('technique', 'function contracts on the real mdbx.c, obligations discharged by '
                                      'goto-cc/goto-instrument/CBMC (symbolic pre/post, DFCC loop invariants, callee contracts)'),
                   'level': p.get('level', 'proof'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 lib/vf.py setup', 'checks': checks,
     'not_applicable': pend + [{'property': p['id'], 'reason': p['reason']} for p in na],
     'notes': 'No hooks: /repo is verified unmodified; annotations are spliced into a scratch copy on every run.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(pend), 'pending', len(na), 'n/a')
