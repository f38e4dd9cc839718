"""Writes /verif/MANIFEST.json from the harness registry."""
import json
import os
import sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
from vlib.harness_api import H, load_all
load_all()
P = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {'X01': 'A limit statement about frequencies over infinitely many draws: symbolic execution quantifies over single draws (S02 and S03 show what is drawn, with which parameters), not over their distribution.',
      'X02': 'A liveness statement over unbounded executions; bounded symbolic execution can only cut runs at a step bound (C01-C04 state theirs).',
      'X03': 'Needs error bounds for double-precision log, sqrt, least squares and adaptive integration; the SMT theory of floating point cannot decide these functions at any useful size, so the encoding is over the reals.'}
TRUST = ('Every feasible path of the real code within the bounds is run symbolically over the reals and every assertion is discharged by normal form or z3 (cvc5 as second solver); '
         'counterexamples and a sample of the paths are run on the real code with real numpy. Trusted: the symbolic numpy/math stand-ins in vlib/, real instead of floating-point arithmetic. Bounds: ')
checks = []
for p in P:
    hs = [h for h in H.values() if h.prop == p['id']]
    if not hs:
        assert p['id'] in NA, p['id']
        continue
    b = ' | '.join(' '.join((h.fn.__doc__ or '').split()) for h in hs)
    checks.append({'property': p['id'], 'quick_cmd': './check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check.py %s' % p['id'],
                   'technique': 'symbolic execution of the real Python source, obligations decided by SMT (z3, cvc5), counterexamples replayed on the real code',
                   'level': 'model_checking', 'level_note': TRUST + b})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
