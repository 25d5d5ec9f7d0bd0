#!/usr/bin/env python3
"""MANIFEST.json from the registry of checks and properties.jsonl"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import props

props_ = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'N01': 'Rounding error, NaN-freedom and closeness to exact spherical geometry are numerical facts about floating-point evaluation over all inputs; no static argument in reach bounds them. The shape of the formulas is decided under C12, C13 and C15.',
    'N02': 'Termination depends on where the nearest point lies after each rotation, a numerical minimum over run-time distances that need not be unique (poles, periodic seams); only the loop structure is visible in the source and it is decided under C09.',
    'N03': 'Equality of the two routes is an equality of geodesic subdivisions and interpolated rings computed from different neighbours; it holds only numerically and for particular geometries, so no value-flow argument decides it.',
    'N04': 'Accuracy of interpolated values is a numerical property of xESMF/ESMF, which is not part of this repository (nor installed here).',
}
TECH = props.TECH
checks, na = [], []
for p in props_:
    i = p['id']
    if i in props.CHECKS:
        t = TECH.get(i, TECH[None])
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                       'technique': t[0], 'level': 'other', 'level_note': t[1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'sgflow (in /verif/sgflow) is an abstract interpreter for the Python subset of this repository; checks/ holds the specification terms. No hooks in /repo.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
