#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness modules present in props/."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(R + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    if not os.path.exists('%s/props/%s.py' % (R, i.lower())):
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': 'symbolic execution of the Python source with Z3; counterexamples replayed on the real package',
                   'level': 'model_checking',
                   'level_note': 'Z3 decides every branch and assertion for all values within the bounds listed in the evidence file (array shapes, ranks, bins, '
                                 'draws, schedules); numbers are reals, library functions are modelled by stand-ins that are checked against the real libraries on '
                                 'solver-chosen inputs in every run.'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Harnesses are in props/, the symbolic interpreter in symx/; known and repaired defects in known_findings.json.'}
with open(R + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks,', [x['property'] for x in na])
