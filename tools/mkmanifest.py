#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the registered jobs."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vf import jobs
NOTE = {
}
NA = {}
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if hasattr(jobs, i) and i not in NA:
        tech = getattr(getattr(jobs, i), 'technique',
                       'bounded symbolic execution of the LLVM IR of the C++ sources, assertions decided by z3')
        checks.append(dict(
            property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
            technique=tech, level='model_checking',
            level_note=NOTE.get(i, 'z3 decides every assertion on every path within the bounds listed in the evidence file '
                                   '(sizes, counts, operations); floats are exact reals and log/lgamma uninterpreted up to '
                                   'their functional equations unless stated (C17 decides the fast versions); counterexamples '
                                   'count only when the real build reproduces them. Trusts clang -O0 IR, the executor in vf/ and z3.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check registered yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, mpmath"', checks=checks, not_applicable=na,
         notes='no hooks in /repo; the checks include /repo headers from harnesses in /verif/harness and rebuild on every run')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
