#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(H, '..', 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in registry.PROPS:
        p = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=p.get('technique', 'TLA+ specification; TLC checks recorded executions of the real code against it, and exhaustive small configurations of it'),
                           level='model_checking',
                           level_note=p.get('note', registry.NOTE)))
    else:
        na.append(dict(property=i, reason=registry.NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, harnesses that record executions of /repo in harness/, driver check.py; see DESIGN.md.')
json.dump(m, open(os.path.join(H, '..', 'MANIFEST.json'), 'w'), indent=1)
