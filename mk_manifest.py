#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = {'C19': 'A compile-time trait-bound fact: no executable code depends on it, so there is nothing to execute symbolically and no solver query that decides it. '
             '(A genuine violation was found by reading, and repaired: commit 3e97aca.)'}
claimed = [p['id'] for p in props if p['id'] not in NA and os.path.exists(here + '/harness/src/%s.rs' % p['id'].lower())]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in claimed:
        src = open(here + '/harness/src/%s.rs' % i.lower()).read()
        import re
        conc = re.search(r'conc2?! *\{', src) is not None
        tech = 'symbolic execution of the LLVM IR rustc emits from /repo (own executor, z3 decides every path and assertion)'
        if conc:
            tech += '; concurrent harnesses: all interleavings and C11 weak-memory outcomes in one SMT encoding; counterexamples replayed natively'
        else:
            tech += '; counterexamples replayed natively'
        m['checks'].append({
            'property': i,
            'quick_cmd': './check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + i,
            'technique': tech,
            'level': 'model_checking',
            'level_note': 'Bounded: holds for all values, indices and ranges' + (', all interleavings and weak-memory reads' if conc else '') +
                          ' of the harnesses in harness/src/%s.rs (small vectors, up to 3 threads with few calls each); no statement outside these bounds. '
                          'Trusts the executor in engine/ (paths and schedules it predicts are re-run natively on every run), z3, rustc and the memory model described in DESIGN.md.' % i.lower()})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print('claimed', claimed)
