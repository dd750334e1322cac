#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'lib'))
from props import PROPS, NOT_APPLICABLE
from bindings import BINDINGS

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        fh.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks = []
for p in PROPS:
    if p['id'] in BINDINGS:
        mods = sorted({b['module'] for b in BINDINGS[p['id']]})
        checks.append({'property': p['id'],
                       'quick_cmd': 'python3-vt check.py %s quick' % p['id'],
                       'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                       'technique': 'TLA+ specification (%s) checked with TLC; its behaviours are replayed step by step into the code' % ', '.join(mods),
                       'level': 'model_checking', 'level_note': p['note']})
na = [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()]
for p in PROPS:
    if p['id'] not in BINDINGS and p['id'] not in NOT_APPLICABLE:
        na.append({'property': p['id'], 'reason': 'no check yet (work in progress)'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, fh, indent=1)
    fh.write('\n')
print(len(PROPS), 'properties,', len(checks), 'checks')
