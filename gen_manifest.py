#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from props.py.
import json, os
d = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(os.path.join(d, 'props.py')).read(), ns)
props, checks = [], []
for p in sorted(ns['props'], key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['id']
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['space']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None},
    })
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh ' + p['id'] + ' quick',
        'thorough_cmd': './check.sh ' + p['id'] + ' thorough',
        'technique': p['technique'], 'level': p.get('level', 'exploration'), 'level_note': p['note'],
    })
open(os.path.join(d, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in props))
m = {'version': 1, 'setup_cmd': './check.sh --build', 'checks': checks, 'not_applicable': [],
     'notes': 'Checks are generated-input searches (rapid) against the real library; see DESIGN.md. The thorough tier widens every bound.'}
json.dump(m, open(os.path.join(d, 'MANIFEST.json'), 'w'), indent=1)
