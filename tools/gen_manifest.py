#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl (run from /verif)."""
import json, sys
sys.path.insert(0, '.')
from props import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level=c['level'], level_note=c['note']))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'monitor not built yet')) for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='One runner (check.py) builds /repo with sanitizers and runs the monitor of the property; see DESIGN.md. No hooks in /repo.'), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
