#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per /verif/harness/cNN.go, the rest under not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/harness/{i.lower()}.go'):
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'technique': 'symbolic execution of the Go SSA of the real code with SMT (z3) deciding every branch and assertion over all inputs within the stated bounds; counterexamples replayed on the compiled code',
            'level': 'model_checking',
            'level_note': 'Bounded: ' + NOTES.get(i, 'holds for all inputs within the harness parameters listed in the evidence.') + ' Trusts go/ssa, the engine\'s Go semantics (sampled paths are replayed natively and compared) and z3 (sampled unsat answers re-decided by cvc5).',
        })
    else:
        na.append({'property': i, 'reason': NOTES.get(i, 'No check built yet.')})
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses are overlaid at load and build time. Commits in /repo are fixes only (see known-findings.jsonl).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'n/a')
