#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below and the properties file."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
import sys
sys.path.insert(0, os.path.join(V, 'harness'))
import notes
checks = []
na = []
for p in props:
    i = p['id']
    if i in notes.CHECKS:
        tech, level, note = notes.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python -B run.py %s' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python -B run.py %s' % i,
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': notes.NOT_APPLICABLE.get(i, 'its check is not built yet')})
m = {'version': 1, 'setup_cmd': 'mkdir -p evidence', 'checks': checks, 'not_applicable': na,
     'notes': 'Specification language: TLA+, checked with TLC (see DESIGN.md). No hooks in /repo: the harness '
              'substitutes its own sqlite3.connect, MySQLdb.connect, spacy.load and WordNet corpus from outside.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
