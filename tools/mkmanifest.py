#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and run/check.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/run')
from check import SPEC, TECH
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i not in SPEC: na.append(dict(property=i, reason='No check yet.')); continue
    t, note = TECH[i]
    checks.append(dict(property=i, quick_cmd='python3 run/check.py %s --tier quick' % i, thorough_cmd='python3 run/check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
        technique=t, level=SPEC[i].get('level', 'exploration'), level_note=note))
json.dump(dict(version=1, setup_cmd='python3 run/setup.py', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the library is instrumented by the compiler (sanitizers, -finstrument-functions) and at link time (objcopy renames its allocation and pthread symbols to monitors in src/vfhook.cc). Replay: python3 run/check.py <id> --replay <path>.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
