#!/usr/bin/env python3
# Regenerates properties.jsonl and MANIFEST.json from tools/props.py (the single source of both).
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    checks = []
    for p in PROPS:
        has = os.path.exists(os.path.join(root, 'checks', p['id'] + '.cpp'))
        na = [n for n in NOT_APPLICABLE if n['property'] == p['id']]
        if not has and not na:
            print('no check for', p['id'], file=sys.stderr)
            continue
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        **({'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]} if 'state' in p else {}),
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
        if len(p['title']) > 80: print('title too long', p['id'], file=sys.stderr)
        if na: continue
        checks.append({'property': p['id'], 'quick_cmd': './check.sh %s' % p['id'],
                       'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
           'notes': 'All checks build /repo out of tree with AddressSanitizer (or ThreadSanitizer) under /verif/.cache; no hooks are needed.'},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
