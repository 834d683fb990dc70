"""Regenerates MANIFEST.json from the properties and the checks that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.budgets import BUDGET, NOTE   # noqa
NA = {
    'C20': 'An input-only fact about one call: no schedule, time, I/O, randomness or history decides it, so a simulator has '
           'nothing to control.',
    'C21': 'A pure function of the scenario matrix and the node layout; no nondeterminism or fault can reach it (its parallel '
           'use is covered by C04).',
    'C26': 'Pure formulas over two tables; deterministic simulation has nothing to control.',
}
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in BUDGET:
        checks.append({'property': i, 'quick_cmd': './check {} --tier quick'.format(i),
                       'thorough_cmd': './check {} --tier thorough'.format(i), 'evidence_file': 'evidence/{}.json'.format(i),
                       'technique': 'deterministic simulation with fault injection, seeded search', 'level': 'exploration',
                       'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
