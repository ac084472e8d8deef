"""Writes MANIFEST.json from the list of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'harness', 'manifest_notes.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  if os.path.exists(os.path.join(V, 'harness', 'checks', p.lower() + '.py')) and p in NOTES:
    cmd = f'/opt/venv/bin/python -B check.py {p}'
    checks.append({'property': p, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' thorough',
                   'evidence_file': f'evidence/{p}.json', 'technique': NOTES[p][0],
                   'level': 'model_checking', 'level_note': NOTES[p][1]})
  else:
    na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+/TLC specifications in spec/, bound to /repo by replay and trace validation; see DESIGN.md. No hooks in /repo are needed: the public API exposes the abstract state.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
