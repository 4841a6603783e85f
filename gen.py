#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (props_text.py)."""
import json, os
import props_text as T
import props
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for p in T.PROPERTIES:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks = []
na = []
for p in T.PROPERTIES:
    i = p['id']
    if p.get('_na'):
        na.append(dict(property=i, reason=p['_na']))
        continue
    assert i in props.PROPS, i
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       technique=T.TECH, level='proof', level_note=p['_note']))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes=T.NOTES)
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
