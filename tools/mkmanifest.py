#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
import engines
checks = []
for p, s in engines.SPEC.items():
    tech = s.get('technique', engines.TECHNIQUE)
    if 'verus' in s.get('side', []):
        tech += '; Verus proof of the extracted functions, generic in all dimensions'
    checks.append({
        'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': tech, 'level': 'proof',
        'level_note': s['contract'] + '.  Scope: ' + s['scope'] + '.  ' + s.get('note', engines.NOTE)})
na = [
    {'property': 'C17', 'reason': 'poseidon-paramgen is excluded from the workspace and does not compile at this commit (no executable code to put under contract), and the inequalities are computed in floating point with logarithms, which no deductive back end here reasons about'},
    {'property': 'C18', 'reason': 'poseidon-paramgen is excluded from the workspace and does not compile at this commit; there is no code that runs to attach contracts to'},
]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. setup_cmd builds the dependencies ahead; every check rebuilds the crates under test from /repo.'}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
