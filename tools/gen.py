"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import subprocess

from props import P

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        fh.write(json.dumps({
            'id': q['id'], 'title': q['title'], 'statement': q['statement'],
            'quantifier': {'over': q['over'], 'text': q['text']},
            'why_tests_cant': q['why'],
            'anchors': {'files': q['files'],
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in q['mech']],
                        'observe_at': q['observe'], 'hook_needed': None},
        }) + '\n')
checks, na = [], []
for q in P:
    if os.path.exists(os.path.join(V, 'checks', q['id'].lower() + '.py')):
        checks.append({
            'property': q['id'],
            'quick_cmd': './check.sh ' + q['id'],
            'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + q['id'] + ' --thorough',
            'technique': 'TLA+ specification model checked with TLC; TLC behaviours '
                         'replayed in the code and recorded executions validated by TLC',
            'level': 'model_checking',
            'level_note': q['level_note'] + ' (spec/%s.tla). Trusts TLC, the driver projections, pandas/numpy/PyTables and the nilm_metadata stand-in.' % q['spec'],
        })
    else:
        na.append({'property': q['id'],
                   'reason': q['na'] or 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'true',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed: the public API exposes the abstract state. '
              'Commits in /repo are fix: commits only; see known_findings.json.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
