#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the evidence of the last
run (level 'proof' only where no obligation of the quick run is bounded)"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
TECH = ('deductive verification: contracts on the real functions, '
        'verification conditions by symbolic execution of /repo source, '
        'discharged by ring normaliser, z3 and cvc5')
checks = []
for p in ps:
    i = p['id']
    if i in NA:
        continue
    ev = json.load(open(os.path.join(here, 'evidence', i + '.json')))
    c = ev['coverage']
    bnd = sorted({k['contract'] for k in c['contracts']
                  if k.get('mode') != 'all inputs'})
    full = sorted({k['contract'] for k in c['contracts']
                   if k.get('mode') == 'all inputs'})
    modes = {k['contract']: k.get('mode') for k in c['contracts']}
    level = 'proof' if not bnd else 'other'
    note = ''
    if full:
        note += 'Proved for all inputs: %s. ' % ', '.join(full)
    if bnd:
        note += ('Bounded (all values, list lengths up to the bound, never '
                 'counted as proved): %s. ' % ', '.join(
                     '%s (%s)' % (b, modes[b]) for b in bnd))
    note += ('Assumes real arithmetic for floats and the contracts on '
             'builtins, businessdate and bisect stated in DESIGN.md; the VC '
             'generator vc/ is trusted. A seeded search evaluates the same '
             'contracts on the unmodified code and replays counterexamples.')
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                       thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=TECH, level=level, level_note=note))
m = dict(version=1,
         setup_cmd='python3 tools/setup.py',
         checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='No hooks in /repo. See DESIGN.md.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', sum(c['level'] == 'proof' for c in checks),
      'proof')
