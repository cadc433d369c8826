"""Writes MANIFEST.json for the checks that exist."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
NOTES = json.load(open(os.path.join(HERE, 'notes.json')))
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = 'checks/%s.py' % p['id'].lower()
    if os.path.exists(os.path.join(HERE, f)) and p['id'] in NOTES:
        t, note = NOTES[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': '%s %s --tier quick' % (PY, f),
                       'thorough_cmd': '%s %s --tier thorough' % (PY, f),
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': t, 'level': 'exploration',
                       'level_note': note})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '%s lib/vh.py --setup' % PY, 'checks': checks, 'not_applicable': na,
     'notes': 'All checks run the unmodified /repo tree from outside; no hooks are compiled in. '
              'Extensions whose .pyx differs from the in-place build are rebuilt in a scratch directory.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
