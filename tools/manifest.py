#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the rule files that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))

NA = {
    'X01': 'Convergence of gradient descent is a numerical fact about trajectories, not a property of the source; '
           'what the source can be held to (the exact gradient, applied once) is C16 and C17.',
    'X02': 'Rounding-error bounds need a floating-point error analysis; the term domain works over exact reals, so '
           'it cannot see cancellation or overflow.',
    'X03': 'Statistical quality of a generator is a fact about number sequences; the source decides only which '
           'recurrence is used (C20).',
}

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'analyzer/rules_%s.py' % p.lower())):
        m = importlib.import_module('rules_' + p.lower())
        checks.append({
            'property': p,
            'quick_cmd': 'python3 check.py ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
            'evidence_file': 'evidence/%s.json' % p,
            'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation of the MIR over a term domain, compared '
                                                 'with a reference expression by normal form'),
            'level': 'other',
            'level_note': getattr(m, 'LEVEL_NOTE', 'Static analysis: obligations are discharged by normal-form '
                          'equality over exact reals for all sizes and values; an obligation whose normal forms '
                          'differ is compared at sample points of the extracted terms and reported as sampled; '
                          'undecided obligations are counted in the evidence. Trusts the MIR dump, the models of '
                          'the standard library and rayon, and exact-real arithmetic.'),
        })
    else:
        na.append({'property': p, 'reason': NA.get(p, 'No analysis has been built for this property yet.')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks analyse the MIR of /repo at its current working tree; no hooks in /repo.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
