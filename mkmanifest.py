#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 run.py check ' + i,
            'thorough_cmd': 'python3 run.py check %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', 'property-based testing: generated histories and inputs against a reference model, with shrinking'),
            'level': c.get('level', 'exploration'),
            'level_note': c.get('note', 'No counterexample among the generated cases counted in the evidence file, in sanitized, '
                          'optimised, vectorised and portable builds; sampling, not proof. Trusts the reference model and the compilers.'),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'its check is not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
