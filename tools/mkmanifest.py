#!/usr/bin/env python3
# writes MANIFEST.json from tools/registry.py and properties.jsonl
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools'); import registry
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p)
    if c:
        checks.append(dict(property=p, quick_cmd=f'./check {p}', thorough_cmd=f'./check {p} --thorough', technique=c.get('technique', registry.TECH), level='model_checking', level_note=c['note'] + ' ' + registry.NOTE))
    else:
        na.append(dict(property=p, reason=registry.NA.get(p, 'not built yet')))
json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the harnesses interpose allocation, locking and atomics from outside (link-time wrapping and the stand-in headers). ./check ID --replay FILE replays a violation.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
