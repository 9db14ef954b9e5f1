"""Regenerate MANIFEST.json from the registered contracts."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyvc import api, verify            # noqa
verify.load_contracts()
from contracts import NOT_APPLICABLE, BOUNDED_NOTE, PENDING        # noqa
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    items = [i for i in api.REGISTRY.values() if p in i.props]
    pr = [i.name for i in items if i.mode == 'proof']
    bd = [i.name for i in items if i.mode == 'bounded']
    if not items or not pr or p in PENDING:
        na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no contract built for it yet')})
        continue
    level = 'proof' if not bd else 'other'
    note = (f'{len(pr)} contracts/drivers discharged by the pyvc verifier (z3, cvc5) on the current source for all '
            'inputs in their stated domains.')
    if bd:
        note += (f' {len(bd)} items are bounded stand-ins (native execution of the real code against the contract on '
                 'sampled inputs, never counted as proved): ' + ', '.join(bd) + '.')
        if p in BOUNDED_NOTE:
            note += ' ' + BOUNDED_NOTE[p]
    checks.append({
        'property': p, 'quick_cmd': f'python3-vt check.py {p}', 'thorough_cmd': f'python3-vt check.py {p} thorough',
        'technique': 'contract-based deductive verification: contracts on the real functions, verification '
                     'conditions generated from the current source by symbolic interpretation, discharged by z3/cvc5; '
                     'counterexamples replayed natively' + ('; bounded native stand-ins' if bd else ''),
        'level': level, 'level_note': note + ' Trusted: see trusted_base and assumptions in the evidence file.'})
json.dump({'version': 1, 'setup_cmd': "python3-vt -c 'import z3; import sys; print(z3.get_version_string())'",
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: contracts live in /verif/contracts, keyed by the qualified name of the function.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
