"""Writes /verif/MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(VERIF, 'properties.jsonl'))]
LEVELS = json.load(open(os.path.join(VERIF, 'tools', 'levels.json')))
checks = []
for p in props:
    i = p['id']
    lv = LEVELS.get(i, LEVELS['default'])
    checks.append(dict(
        property=i,
        quick_cmd='python3-vt /verif/check.py %s' % i,
        thorough_cmd='python3-vt /verif/check.py %s --thorough' % i,
        technique=lv['technique'], level=lv['level'],
        level_note=lv['note']))
m = dict(version=1, setup_cmd='python3-vt /verif/setup.py', checks=checks,
         not_applicable=[], notes=LEVELS['notes'])
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
