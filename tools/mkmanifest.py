#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs/registry.py (run with the z3 venv's python)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from specs import registry
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
NA = {}
checks = []
for i in ids:
    if i in registry.PROPS:
        p = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique=p['technique'], level=p.get('level', 'proof'),
                           level_note=p.get('note') or ('functions under contract: ' + ', '.join(p['units']) + ('; bounded stand-in (not counted as proved): ' + p['bounded']['what'] if p['bounded'] else ''))))
na = [dict(property=i, reason=NA.get(i, 'not claimed yet: contracts under construction')) for i in ids if i not in registry.PROPS]
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na, hooks=dict(guard='', enable='', source_commits=[]))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
