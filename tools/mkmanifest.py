#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS, NOTES
top = os.path.join(here, '..')
props = [json.loads(l) for l in open(os.path.join(top, 'properties.jsonl'))]
NA = {'C26': 'filter-design/mkfir.sh runs an octave script; there is no octave in this sandbox, so the script cannot be executed against any oracle (C01 and C08 check the shipped FIR tables themselves)'}
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks are needed in /repo: every check drives the unmodified sources. run.py builds the harness from the working tree into /verif/build (ignored by git), generates cases from VERIF_SEED, shrinks failures and writes replay files; see DESIGN.md.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py check ' + i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'property-based testing: ' + NOTES[i][0], 'level': 'exploration', 'level_note': NOTES[i][1]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump(m, open(os.path.join(top, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
