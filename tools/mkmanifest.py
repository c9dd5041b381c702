#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans in harness/plans.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import plans
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in plans.PLANS:
        na.append({'property': i, 'reason': plans.NOT_YET.get(i, 'not built yet')})
        continue
    tech, note = plans.NOTES.get(i, (None, None))
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                   'technique': tech or 'TLA+ specification checked with TLC; recorded executions of the real code validated against it (trace validation)',
                   'level': 'model_checking', 'level_note': note or plans.NOTE})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Specification in spec/ (TLA+, TLC); driver check.py; see DESIGN.md. No hooks in /repo: the harness uses only the public interface.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
