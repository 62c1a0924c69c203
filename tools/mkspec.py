#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py. A property is claimed when checks/<id>.py exists."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec

NOTES = getattr(spec, 'NOTES', {})
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in spec.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'hook_needed': None},
        }) + '\n')
checks, na = [], []
for p in spec.PROPS:
    i = p['id']
    if os.path.exists(f'{V}/checks/{i}.py'):
        checks.append({
            'property': i,
            'quick_cmd': f'./run {i} quick',
            'thorough_cmd': f'./run {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': p['technique'],
            'level': p.get('level', 'exploration'),
            'level_note': p.get('note') or 'Generated-input search against an explicit oracle over the real code; finds counterexamples, does not establish absence. Trusts the oracle in checks/%s.py, Hypothesis, and the CBOR/CID/crypto libraries.' % i
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Property-based testing and fuzzing with Hypothesis over the real arroba code; see DESIGN.md. No hooks in /repo.'},
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not yet')
