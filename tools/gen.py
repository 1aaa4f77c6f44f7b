#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py (the single source)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from spec import PROPS, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        row = {k: p[k] for k in ('id', 'title', 'statement', 'why_tests_cant')}
        row['quantifier'] = {'over': p['over'], 'text': p['text']}
        row['anchors'] = {'files': p['files'],
                          'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                          'observe_at': p.get('observe_at', []), 'hook_needed': None}
        f.write(json.dumps(row, ensure_ascii=False) + '\n')

checks = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': '/opt/venv/bin/python run_check.py %s quick' % p['id'],
        'thorough_cmd': '/opt/venv/bin/python run_check.py %s thorough' % p['id'],
        'technique': p['technique'], 'level': p.get('level', 'exploration'), 'level_note': p['note']})
man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
       'notes': 'No hooks in /repo: every monitor attaches from the harness (public API, subclassing, recording stand-ins). '
                'Replay a violation with: /opt/venv/bin/python run_check.py replay <path>.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(checks), 'checks')
import design  # noqa: E402
design.main()
