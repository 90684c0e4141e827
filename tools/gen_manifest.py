"""Writes /verif/MANIFEST.json.  LEVELS: properties whose obligations are discharged by the verifier."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = json.load(open(os.path.join(V, 'tools', 'levels.json')))
NA = {}
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        continue
    if p in PROOF:
        level, tech = 'proof', PROOF[p]['technique']
        note = PROOF[p]['note']
    else:
        level = 'exploration'
        tech = 'executable contracts on the real functions, bounded stand-in'
        note = ('Bounded: contracts evaluated on the real code for generated inputs; nothing is counted as proved. '
                'Trusts numpy, scipy, obspy and the Python interpreter.')
    checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick ./check.sh ' + p,
                   'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': tech, 'level': level, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'No hooks in /repo. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
