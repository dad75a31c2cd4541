#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and contracts/: a property with a contracts module is decided by proof."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl')) if x.strip()]
notes = json.load(open(os.path.join(HERE, 'notes.json'))) if os.path.exists(os.path.join(HERE, 'notes.json')) else {}
checks = []
for p in props:
    i = p['id']
    proof = os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py'))
    n = notes.get(i, '')
    if proof:
        tech = 'contract-based deductive verification: verification conditions generated from the real Python AST, discharged by z3/cvc5; counterexample search replays the contract on the real code'
        note = 'All inputs, no bound, for the functions under contract named in the evidence; ' + n
    else:
        tech = 'executable contracts (pre/postconditions) checked on executions of the real functions: bounded stand-in of contract-based verification'
        note = 'Bounded: random inputs satisfying the precondition, fixed seed, not a proof. ' + n
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                   'technique': tech, 'level': 'proof' if proof else 'exploration', 'level_note': note.strip()})
json.dump({'version': 1, 'setup_cmd': 'python3 env_check.py', 'checks': checks, 'not_applicable': []}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
