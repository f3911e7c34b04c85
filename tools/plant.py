#!/usr/bin/env python3
"""plant.py FILE...   confirms planted bugs in a scratch copy of /repo and writes them to /verif/seeded/<id>/.
FILE is a python file defining BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo={name: text}, kind='c'|'mpi', np=..)]"""
import os, re, subprocess, sys, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant_w'
R = W + '/repo'

SH_C = '''#!/bin/bash
# run in the repository after the build
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
[ -f _build/config.h ] && I=_build || I=$D
touch "$D/config.h"
gcc -w -g %(flags)s -Isrc -I"$I" "$H/demo.c" src/kvtree.c src/kvtree_util.c src/kvtree_io.c src/kvtree_helpers.c src/kvtree_err.c -o "$D/demo" -lz %(wrap)s || exit 9
cd "$D" && ulimit -c 0 && timeout 120 ./demo "$D" > "$D/out" 2>&1
rc=$?
grep -a "DEMO" "$D/out" | head -5
exit $rc
'''
SH_M = '''#!/bin/bash
# run in the repository after the build
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1
[ -f _build/config.h ] && I=_build || I=$D
touch "$D/config.h"
mpicc -w -g %(flags)s -Isrc -I"$I" "$H/demo.c" src/kvtree.c src/kvtree_util.c src/kvtree_io.c src/kvtree_helpers.c src/kvtree_err.c src/kvtree_mpi.c src/kvtree_mpi_io.c -o "$D/demo" -lz %(wrap)s || exit 9
cd "$D" && ulimit -c 0
rc=0
for n in %(np)s; do timeout 100 mpirun -n $n ./demo "$D" > "$D/out" 2>&1 || rc=1; done
grep -a "DEMO" "$D/out" | head -5
exit $rc
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)


def fresh():
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        sh('cp -a /repo %s; rm -rf %s/_build' % (R, R))
        for f in ('build.sh', 'test.sh', 'case_runner.c', 'results.py', 'BASELINE.json'):
            if os.path.exists('/opt/vp/' + f):
                t = open('/opt/vp/' + f).read().replace('/repo', R).replace('/opt/vp', W)
                open(W + '/' + f, 'w').write(t)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD && git -C %s clean -fdq test src' % (R, R, R))


def tests():
    o = W + '/out.json'
    sh('bash %s/test.sh %s' % (W, o))
    d = json.load(open(o))
    return set(d['passed'])


def main():
    fresh()
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    b = sh('bash %s/build.sh' % W)
    if b.returncode:
        print(b.stdout[-2000:], b.stderr[-2000:]); return
    only = set(os.environ.get('ONLY', '').split(',')) - {''}
    for fn in sys.argv[1:]:
        ns = {}
        exec(open(fn).read(), ns)
        for bug in ns['BUGS']:
            if only and bug['id'] not in only:
                continue
            sh('git -C %s checkout -qf .' % R)
            ok = True
            for f, old, new in bug['edits']:
                p = R + '/' + f
                t = open(p).read()
                if t.count(old) != bug.get('count', 1):
                    print(bug['id'], 'EDIT: %d matches in %s for %r' % (t.count(old), f, old[:60])); ok = False; break
                open(p, 'w').write(t.replace(old, new))
            if not ok:
                continue
            diff = sh('git -C %s diff' % R).stdout
            d = tempfile.mkdtemp()
            for n, t in bug['demo'].items():
                open(os.path.join(d, n), 'w').write(t)
            fmt = dict(flags=bug.get('flags', ''), wrap=bug.get('wrap', ''), np=bug.get('np', '4'))
            open(d + '/demo.sh', 'w').write((SH_M if bug.get('kind') == 'mpi' else SH_C) % fmt)
            sh('git -C %s checkout -qf .' % R)
            r0 = sh('bash %s/build.sh' % W)
            c0 = sh('bash %s/demo.sh' % d, cwd=R)
            open(d + '/patch.diff', 'w').write(diff)
            a = sh('git -C %s apply %s/patch.diff' % (R, d))
            r1 = sh('bash %s/build.sh' % W)
            ts = tests() if r1.returncode == 0 else set()
            c1 = sh('bash %s/demo.sh' % d, cwd=R)
            good = a.returncode == 0 and r1.returncode == 0 and c0.returncode == 0 and c1.returncode not in (0, 9) and stable <= ts
            print(bug['id'], bug['property'], 'OK' if good else 'REJECTED', 'clean demo', c0.returncode, 'patched demo', c1.returncode, c1.stdout.strip()[:150], 'tests lost', sorted(stable - ts)[:4],
                  '' if r1.returncode == 0 else r1.stdout[-800:], (c0.stdout + c0.stderr)[-600:] if c0.returncode else '', flush=True)
            if good:
                json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(d + '/meta.json', 'w'), indent=1)
                t = os.path.join(V, 'seeded', bug['id'])
                shutil.rmtree(t, ignore_errors=True)
                shutil.copytree(d, t)
            shutil.rmtree(d)
    sh('git -C %s checkout -qf .' % R)


main()
