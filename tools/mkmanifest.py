#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
from tools.notes import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'GRINPP_VERIF', 'enable': 'harness/build.py compiles with -DGRINPP_VERIF (no source currently tests it)', 'source_commits': []}, 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': NOTES[i][0], 'level': CHECKS[i]['level'], 'level_note': NOTES[i][1]})
    else: m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'No check built yet.')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
