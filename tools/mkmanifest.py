"""Writes MANIFEST.json: a check for every property with a contract module."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf8')]
checks, na = [], []
NOTE = {
    'proof': "Every obligation generated from /repo's current source for the functions under contract is discharged by z3, for all inputs and "
             "iterations; the numbers, functions and assumptions are in the evidence file. Trusted: pyvc's semantics of Python (cross-checked "
             "by running the same contracts on real inputs), z3, the specification functions. An obligation the engine cannot decide on changed code "
             "falls back to the bounded run of the executable contract, which the evidence labels bounded.",
}
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(V, 'contracts', i.lower() + '.py')):
        na.append(dict(property=i, reason='no contract within reach has been completed for it yet'))
        continue
    src = open(os.path.join(V, 'contracts', i.lower() + '.py'), encoding='utf8').read()
    note = NOTE['proof']
    level = 'proof'
    extra = ''
    for l in src.splitlines():
        if l.startswith('LEVEL = '):
            level = eval(l[8:])
        if l.startswith('LEVEL_NOTE = '):
            extra = ' ' + eval(l[13:])
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i,
                       technique='contract-based deductive verification (verification conditions generated from the source on disk, discharged by z3)',
                       level=level, level_note=note + extra))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import pyvc.prop"', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf8'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
