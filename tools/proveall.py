#!/usr/bin/env python3-vt
"""verify every function under contract (or those matching the arguments); prints what is not proved"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from kvproof.pool import Pool
from kvproof.contracts import CONTRACTS
if __name__ == '__main__':
    pats = sys.argv[1:]
    names = [n for n in CONTRACTS if not CONTRACTS[n].trusted and (not pats or any(p in n for p in pats))]
    t0 = time.time()
    rs = []
    Pool(8).run([dict(fn=n, deadline=300) for n in names], 700, lambda q, a: rs.append(a) if a and 'error' not in a else print('ERROR', q, a))
    for r in sorted(rs, key=lambda r: r['wall_s']):
        if r['status'] != 'proved' or r['wall_s'] > 20:
            print(r['fn'], r['status'], r['reason'][:300], 'wall', r['wall_s'])
            for f in r['failures'][:4]:
                print('    ', f['kind'], 'line', f['line'], f['msg'][:300], f['trace'][-5:])
    print(len([r for r in rs if r['status'] == 'proved']), 'of', len(rs), 'proved; obligations', sum(r['obligations'] for r in rs), 'solver', round(sum(r['solver_s'] for r in rs), 1), 'wall', round(time.time() - t0, 1))
