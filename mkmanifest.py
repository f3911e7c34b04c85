"""writes MANIFEST.json from propconf.py"""
import json
from propconf import PROPS
from kvproof.contracts import CONTRACTS
checks = []
for p in sorted(PROPS):
    c = PROPS[p]
    fns = sorted(n for n, k in CONTRACTS.items() if p in k.props)
    if c['level'] == 'proof':
        tech = 'contract-based deductive verification of the real code (own VC generator over clang AST + z3); seeded replay harness on the compiled code'
        note = 'For all inputs, per function: the obligations of %s are discharged from the current source on every run. %s Assumes: see evidence (assumptions, trusted base). ' % (', '.join(fns), c.get('note', ''))
        note += 'The harness (%s) is a bounded search for a replayable input, not counted as proof.' % c['bounded']
    elif fns:
        tech = 'contract-based deductive verification of %d of the functions involved (own VC generator over clang AST + z3) plus a labelled bounded check of the whole property on the compiled code' % len(fns)
        note = 'Under contract and discharged on every run: %s. %s The rest is bounded, not proved: %s.' % (', '.join(fns), c.get('note', ''), c['bounded'])
    else:
        tech = 'bounded check of the property on the compiled code (stand-in, labelled bounded: no contract discharged for it yet)'
        note = 'Bounded only: %s. %s' % (c['bounded'], c.get('note', ''))
    checks.append(dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p,
                       technique=tech, level=c['level'], level_note=note))
m = dict(version=1, setup_cmd='python3-vt selftest.py', checks=checks, not_applicable=[],
         notes='One property per check; check.py proves the contracts tagged with it and runs its bounded harness. /repo carries no hooks; its only commits are "fix:" repairs (known-findings.txt).')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
