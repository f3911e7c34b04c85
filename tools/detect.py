#!/usr/bin/env python3
"""detect.py [id...]   runs every planted bug (or the named ones) against the check of its property, in a scratch copy.
Writes one line per bug: caught by an input, caught by a failed obligation, or missed."""
import os, subprocess, sys, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/detect_w_%d' % os.getpid()
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
for i in ids:
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    subprocess.run('rm -rf %s/r; git clone -q /repo %s/r && git -C %s/r apply %s/patch.diff' % (W, W, W, d), shell=True, check=True)
    p = subprocess.run(['python3-vt', V + '/check.py', m['property']], capture_output=True, text=True, errors='replace', env=dict(os.environ, KV_REPO=W + '/r', KV_OUT=W))
    o = p.stdout
    v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
    how = 'MISSED' if not v else ('obligation' if 'no-failing-input-found' in v[0] else 'input')
    head = o[:o.find('VIOLATION')].strip().splitlines()[-1][:150] if v else o.strip()[-300:]
    fo = ''
    try:
        e = json.load(open(W + '/evidence/%s.json' % m['property']))
        fo = ','.join('%s/%s' % (x['fn'], '+'.join(x['kinds'])) for x in e['coverage']['failed_obligations'])
    except OSError:
        pass
    print('%-26s %s rc=%s %-10s obligations: %-60s %s' % (i, m['property'], p.returncode, how, fo or '-', head.replace('\n', ' ')), flush=True)
shutil.rmtree(W)
