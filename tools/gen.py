#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the definitions in tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
rows, checks, na = [], [], []
for p in PROPS:
    rows.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                             'observe_at': p.get('observe', []), 'hook_needed': None}})
    assert len(p['title']) <= 80, p['id']
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 engine/extract.py', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for r in rows:
    jsonschema.validate(r, s)
jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('%d properties, %d checks, %d not applicable' % (len(rows), len(checks), len(na)))
