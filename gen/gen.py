#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from gen/props.py. Run by hand after editing props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
lines, checks = [], []
for p in PROPS + NA:
    assert len(p['title']) <= 80, p['id']
    d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
         'quantifier': {'over': p['over'], 'text': p['quant']},
         'why_tests_cant': p['why'],
         'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                     'observe_at': p.get('observe', ['the value or error text an ivy program prints'])}}
    lines.append(json.dumps(d))
for p in PROPS:
    checks.append({'property': p['id'], 'quick_cmd': './run.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
open(os.path.join(root, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': './run.sh --build', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'One analyser (tool/, vendored dependencies) decides every property from the type-checked SSA form of /repo; quick and thorough are the same exhaustive analysis.'}
open(os.path.join(root, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')

import subprocess; subprocess.check_call([sys.executable, os.path.join(here, 'design.py')])
