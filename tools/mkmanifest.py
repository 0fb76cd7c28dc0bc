#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    c = PROPS.get(i)
    if not c:
        na.append(dict(property=i, reason='No check has been built for it yet.'))
        continue
    checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
        evidence_file='evidence/%s.json' % i, level=c.get('level', 'model_checking'),
        technique=c.get('technique', 'TLA+ specification checked with TLC; traces of the real code under explored schedules validated against it'),
        level_note=c.get('note', 'The design model is checked exhaustively within small constants. The code is bound to it by TLC trace validation of runs under systematically and randomly explored schedules, so the verdict on the code covers the runs explored, not all schedules.')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, notes='TLA+ (TLC). See DESIGN.md. No hooks in /repo: scheduling points are added by a build overlay generated from the current tree.')
if na:
    m['not_applicable'] = na
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
