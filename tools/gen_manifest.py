#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.CHECKS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import checks
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[])
for i in ids:
    c = checks.CHECKS.get(i)
    if not c:
        m['not_applicable'].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, 'no check built yet')))
        continue
    m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i,
        thorough_cmd='python3 run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
        technique=c['technique'], level='model_checking', level_note=c['note']))
m['notes'] = 'All checks build the real sources of /repo with no hooks; see DESIGN.md.'
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
