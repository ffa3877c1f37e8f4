#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl (run by hand)."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
NOTE = ('Every path of the real code within the stated bounds (number of '
        'values, sublists, arguments, operations; see evidence bounds) is '
        'explored with symbolic values, keys, positions and arguments; z3 '
        'decides each branch and each assertion. Counterexamples are '
        'replayed on the unmodified package. Trusted: z3, CPython\'s '
        'containers, bisect and sort, and the token model of ordered values. '
        'Outside the bounds nothing is claimed.')
EXTRA = {
    'C20': ' Layer 2 also decides the list operations with symbolic sublist '
           'lengths and a symbolic load factor.',
}
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    checks.append({
        'property': p,
        'quick_cmd': 'python3-vt check.py %s quick' % p,
        'thorough_cmd': 'python3-vt check.py %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'path-exhaustive symbolic execution of the real source '
                     'with z3 (bounded), counterexample replay',
        'level': 'model_checking',
        'level_note': NOTE + EXTRA.get(p, ''),
    })
json.dump({'version': 1, 'setup_cmd': 'python3-vt selftest.py',
           'checks': checks, 'not_applicable': []},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
