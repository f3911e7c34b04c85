#!/usr/bin/env python3-vt
"""check.py Cxx [quick|thorough]   decides one property on the current tree of /repo.

1. proof: every function under contract that carries the property (tagged with it in kvproof/specs*.py)
   and, transitively, every function under contract it calls is verified against its contract, from
   clang's AST of /repo/src parsed on this run.
2. harness: the same property on the compiled code (harness/), seeded; it is the search for a failing
   input when an obligation fails, and the labelled bounded stand-in for what has no contract.
exit 0: held; exit 1 with a VIOLATION line otherwise."""
import json, os, subprocess, sys, time, tempfile, shutil, glob, re, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get('KV_REPO', '/repo')
OUT = os.environ.get('KV_OUT', V)        # where replay/ and evidence/ are written
from propconf import PROPS, TRUSTED, ASSUMPTIONS, relevant, FNDEADLINE, SLOW   # noqa

T_START = time.time()


# ------------------------------------------------------------------------------- proof
def nothing(n, why):
    return dict(fn=n, status='budget', reason=why, failures=[], obligations=0, discharged=0, nontrivial=0,
                solver_s=0, wall_s=0, called=[], inlined=[], cases=[], queries=0, kinds=[])


def base(n):
    return n.split('#')[0]


def prove(prop, procs, deadline, until, factor=1):
    """-> ({fn: result}, tagged, lemmas)"""
    from kvproof.contracts import CONTRACTS
    from kvproof.pool import Pool
    tagged = [n for n, c in CONTRACTS.items() if prop in c.props]
    results, lemmas, errors = {}, [], []
    if not tagged:
        return {}, [], []
    seen = set(tagged)

    def got(req, a):
        n = req['fn']
        if a is not None and 'error' in a:
            errors.append(a['error'])
            return
        if n is None:
            lemmas.extend(a['lemmas'] if a else [])
            return
        results[n] = a or nothing(n, 'no answer from the worker')
        more = [c for c in results[n].get('called', ()) if c in CONTRACTS and not CONTRACTS[c].trusted and c not in seen]
        seen.update(more)
        return [dict(fn=c, deadline=limit(c)) for c in more]
    limit = lambda n: deadline * SLOW.get(base(n), 1)
    reqs = [dict(fn=n, deadline=limit(n)) for n in sorted(tagged, key=lambda n: (-SLOW.get(base(n), 1), n))]
    Pool(procs, factor, until=until).run([dict(fn=None)] + reqs, deadline * 2 + 60, got)
    if errors:
        raise RuntimeError(errors[0])
    return results, tagged, lemmas


# ------------------------------------------------------------------------------- harness
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:hard_rss_limit_mb=6000:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C')
for k in list(ENV):
    if k.startswith('KVTREE_'):
        del ENV[k]
INTEREST = re.compile(rb'^(OK|FAIL|SAMPLE)|ERROR: AddressSanitizer|runtime error|SUMMARY|^ +#\d|deadlock|hard rss')


def build(kinds, out):
    p = subprocess.run(['bash', os.path.join(V, 'harness', 'build.sh'), out, REPO] + kinds, capture_output=True)
    if p.returncode != 0 or not all(os.path.exists(os.path.join(out, 'h_' + k)) for k in kinds):
        return (p.stdout + p.stderr).decode(errors='replace')[-3000:]
    return None


def run_one(out, kind, prop, seed, cases, scratch, timeout):
    d = tempfile.mkdtemp(prefix='r%d_' % seed, dir=scratch)
    cmd = [os.path.join(out, 'h_' + kind), prop, str(seed), str(cases)] + ([d] if kind != 'tree' else [])
    t0 = time.time()
    log = os.path.join(scratch, 'log_%d' % seed)
    with open(log, 'wb') as f:
        env = dict(ENV, UBSAN_OPTIONS=ENV['UBSAN_OPTIONS'] + ':log_path=%s_ub' % log)
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    lines, tail = [], b''
    with open(log, 'rb') as f:
        for ln in f:
            if INTEREST.search(ln) and len(lines) < 400:
                lines.append(ln.decode(errors='replace').rstrip()[:600])
        f.seek(max(0, os.path.getsize(log) - 2000))
        tail = f.read().decode(errors='replace')
    os.unlink(log)
    for u in sorted(glob.glob(log + '_ub*')):
        lines += [x[:600] for x in open(u, errors='replace').read().split('\n')[:40] if x.strip()]
        os.unlink(u)
    shutil.rmtree(d, ignore_errors=True)
    ok = [x for x in lines if x.startswith('OK ')]
    r = dict(seed=seed, kind=kind, rc=rc, wall=round(time.time() - t0, 2), cmd=' '.join(cmd[1:4]), lines=lines, tail=tail, failed=not (rc == 0 and ok), ev=0, dn=0)
    r['oom'] = any('hard rss' in x for x in lines) or rc == -9
    if ok:
        m = re.search(r'evaluations (\d+) distinct (\d+)', ok[0])
        r['ev'], r['dn'] = int(m.group(1)), int(m.group(2))
    r['samples'] = [x[7:407] for x in lines if x.startswith('SAMPLE')][:4]
    return r


def harness(prop, seeds, out, scratch, procs, timeout, until):
    """seeds: (seed, program, cases) -> list of run results"""
    res, stop = [], []

    def go(s):
        if stop or time.time() > until:
            return None
        s, kind, cases = s
        r = run_one(out, kind, prop, s, cases, scratch, timeout)
        if r['failed'] and r['rc'] is None:         # a hang is believed only if it hangs again with more time
            r2 = run_one(out, kind, prop, s, cases, scratch, timeout * 1.5)
            if not r2['failed']:
                r = r2
            elif r2['rc'] is not None:
                r = r2
        if r['failed']:
            stop.append(1)
        return r
    with ThreadPoolExecutor(procs) as ex:
        for r in ex.map(go, seeds):
            if r is not None:
                res.append(r)
    return res


def describe(r):
    fl = [x for x in r['lines'] if not x.startswith(('SAMPLE', 'OK '))]
    why = 'no answer within the time limit (hang)' if r['rc'] is None else 'exit code %s' % r['rc']
    return (fl[0] if fl else why), '\n'.join(fl[:60])


# ------------------------------------------------------------------------------- main
def replay_file(prop, n, text):
    d = os.path.join(OUT, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.txt' % (prop, n))
    with open(p, 'w') as f:
        f.write(text)
    return p


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    thorough = tier == 'thorough'
    hp = json.load(open(os.path.join(V, 'harness', 'runs.json')))[prop]
    kind, cases, nq, nt = hp[:4]
    also = hp[4:]          # further programs: [program, cases, runs]
    nruns = nt if thorough else nq
    seeds = [seed * 1000 + 1 + i for i in range(nruns)]     # seed*1000+1 = 1 mod 8: the exhaustive enumerations run once per 8
    seeds = [(s, kind, cases) for s in seeds]
    for k2, c2, n2 in also:
        seeds[1:1] = [(seed * 1000 + 501 + i, k2, c2) for i in range(n2)]
    scratch = tempfile.mkdtemp(prefix='kvcheck_%s_' % prop)
    import atexit
    atexit.register(lambda pid=os.getpid(): os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    out = os.path.join(scratch, 'b')
    violations = []        # (headline, replay text, suffix)
    notes = []

    # harness in the background while the proof runs
    ex = ThreadPoolExecutor(1)
    ncpu = min(8, os.cpu_count() or 8)
    from kvproof.contracts import CONTRACTS
    have_proof = any(prop in c.props for c in CONTRACTS.values())

    def hjob():
        be = build([kind] + [a[0] for a in also], out)
        if be:
            return [], be
        return harness(prop, seeds, out, scratch, ncpu if not have_proof else max(3, ncpu // 2), 100, T_START + (560 if not thorough else 5000)), None
    hf = ex.submit(hjob)

    results, tagged, lemmas = {}, [], []
    proof_error = None
    dl = FNDEADLINE * (3 if thorough else 1)
    try:
        at = lambda t: T_START + t * (1 if not thorough else 6)
        results, tagged, lemmas = prove(prop, max(3, ncpu // 2) if not thorough else ncpu // 2, dl, at(430))
        bad = [n for n, r in results.items() if r['status'] in ('failed', 'budget')]
        if bad and hf.done() and any(r['failed'] for r in hf.result()[0]):
            notes.append('the harness has a failing input; the failed functions were not tried again')
        elif bad:
            # a second, patient attempt: solver limits (load, unlucky heuristics) must not decide
            r2, _, _ = retry(bad, max(3, ncpu // 2), dl * 2, 4, at(690))
            for n, r in r2.items():
                if r['status'] == 'proved' or results[n]['status'] == 'budget':
                    results[n] = dict(r, retried=True)
    except Exception as e:      # the verifier could not read the sources at all: nothing is proved
        proof_error = '%s: %s' % (type(e).__name__, str(e)[:1500])
        notes.append('the verifier gave no result (%s); nothing is counted as proved on this run' % proof_error[:300])
    runs, build_error = hf.result()

    if build_error:
        print(build_error)
        print('the harness does not build against %s' % REPO)
        if not results:
            sys.exit(2)
        notes.append('the harness did not build against this tree; only the proof was evaluated')

    bad_lemmas = [n for n, ok, t in lemmas if not ok]
    # what the proof says
    failed, undecided = [], []
    for n in sorted(results):
        r = results[n]
        rel = [f for f in r['failures'] if relevant(prop, n, f)]
        if r['status'] == 'failed' and n in tagged and rel:
            failed.append((n, rel))
        elif r['status'] != 'proved':
            undecided.append((n, r['status'], r['reason'] or '; '.join(sorted({f['kind'] for f in r['failures']}))))
    hfail = [r for r in runs if r['failed']]

    extended = []
    if (failed or undecided) and not hfail and not build_error:
        # search longer for a failing input
        more = [(seed * 1000 + 20001 + i, kind, cases) for i in range(64 if not thorough else 256)]
        extended = harness(prop, more, out, scratch, ncpu, 60, T_START + (720 if not thorough else 5400))
        hfail = [r for r in extended if r['failed']]
        runs += extended

    def failed_text():
        t = ''
        for n, rel in failed:
            t += 'function %s: %d failed obligation(s)\n' % (n, len(rel))
            for f in rel[:12]:
                t += '  obligation %s/%s at line %s of /repo/src: %s\n    call stack: %s\n    path: %s\n    arguments in a model of the path: %s\n' % (
                    n, f['kind'], f['line'], f['msg'], f['stack'], ' | '.join(f['trace']), f.get('model'))
        return t
    if hfail:
        r = hfail[0]
        head, detail = describe(r)
        txt = ('property %s\nthe compiled code of %s violates it\n\nreplay: bash %s/harness/build.sh DIR %s %s; cd SCRATCH; '
               'ASAN_OPTIONS=%s DIR/h_%s %s%s\n\nresult: %s\n\n%s\n\nlast output:\n%s\n' % (
                   prop, REPO, V, REPO, r['kind'], ENV['ASAN_OPTIONS'], r['kind'], r['cmd'], '' if r['kind'] == 'tree' else ' SCRATCH', head, detail, r['tail']))
        if failed:
            txt += '\nfailed proof obligations\n' + failed_text()
        violations.append((head, txt, ''))
    elif failed:
        head = ', '.join('%s/%s' % (n, rel[0]['kind']) for n, rel in failed[:5])
        txt = ('property %s\nproof obligations that hold on the unchanged tree fail on this one; no failing input was found by the harness\n'
               '(%d runs of %d cases)\n\n%s\nreplay: %s check.py %s\n' % (prop, len(runs), cases, failed_text(), 'VERIF_SEED=%d' % seed, prop))
        violations.append((head, txt, ' no-failing-input-found'))

    # known findings
    kf = [ln.strip() for ln in open(os.path.join(V, 'known-findings.txt')) if ln.startswith('finding: property=%s ' % prop)] if os.path.exists(os.path.join(V, 'known-findings.txt')) else []
    for ln in kf:
        print('KNOWN-FINDING: ' + ln[len('finding: '):])

    # ------------------------------------------------------------------- evidence
    proved = {n: r for n, r in results.items() if r['status'] == 'proved'}
    cov = {}
    ev = sum(r['ev'] for r in runs)
    dn = sum(r['dn'] for r in runs)
    samples = [x for r in runs for x in r['samples']][:6]
    if P['level'] == 'proof':
        cov.update(obligations=sum(r['obligations'] for r in results.values()), discharged=sum(r['discharged'] for r in results.values()),
                   checker_cmd='cd %s && python3-vt check.py %s %s' % (V, prop, tier), trusted_base=TRUSTED)
    else:
        cov.update(evaluations=ev, distinct_nontrivial=dn, rule=P['rule'], samples=samples or ['(no sample line)'])
        if results:
            cov.update(obligations=sum(r['obligations'] for r in results.values()), discharged=sum(r['discharged'] for r in results.values()))
    cov.update(
        functions_under_contract={n: dict(status=r['status'], obligations=r['obligations'], discharged=r['discharged'], nontrivial=r['nontrivial'],
                                          queries=r['queries'], solver_s=r['solver_s'], cases_reached=r['cases'],
                                          tagged=n in tagged, inlined=r['inlined']) for n, r in sorted(results.items())},
        back_end='kvproof (verification-condition generator over clang %s AST) with z3 %s' % (clang_version(), z3v()),
        solver_s=round(sum(r['solver_s'] for r in results.values()), 2),
        lemmas=dict(proved=sum(1 for _, ok, _ in lemmas if ok), failed=bad_lemmas, names=[n for n, _, _ in lemmas]),
        undecided_by_proof=[dict(fn=n, status=s, why=w[:300]) for n, s, w in undecided],
        failed_obligations=[dict(fn=n, kinds=sorted({f['kind'] for f in rel})) for n, rel in failed],
        bounded=dict(what=P['bounded'], runs=len(runs), cases_per_run=cases, evaluations=ev, distinct_nontrivial=dn, rule=P['rule'], samples=samples,
                     label='bounded, never counted as proved', first_seed=seeds[0]),
        notes=notes + P.get('notes', []))
    e = dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=cov, assumptions=ASSUMPTIONS + P.get('assumptions', []),
             wall_s=round(time.time() - T_START, 2), violations=len(violations))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
    print('%s %s: %d/%d functions proved, %d/%d obligations, %d lemmas; bounded: %d runs, %d evaluations; %.1f s' % (
        prop, tier, len(proved), len(results), sum(r['discharged'] for r in results.values()), sum(r['obligations'] for r in results.values()),
        sum(1 for _, ok, _ in lemmas if ok), len(runs), ev, time.time() - T_START))
    for n, s, w in undecided:
        print('undecided by proof: %s (%s) %s' % (n, s, w[:200].replace('\n', ' ')))
    if violations:
        for i, (head, txt, suf) in enumerate(violations):
            p = replay_file(prop, i, txt)
            print(head.replace('\n', ' ')[:400])
            print('VIOLATION property=%s replay=%s%s' % (prop, p, suf))
        sys.stdout.flush()
        return 1
    if bad_lemmas:
        print('lemma not proved: %s' % bad_lemmas)      # an error of the verifier's own theory, not of the code
        return 2
    return 0


def retry(names, procs, deadline, factor, until):
    from kvproof.pool import Pool
    results = {}

    def got(req, a):
        if a is not None and 'error' not in a:
            results[req['fn']] = a
    Pool(procs, factor, until=until).run([dict(fn=n, deadline=deadline) for n in names], deadline + 60, got)
    return results, None, None


def clang_version():
    try:
        return re.search(r'version (\S+)', subprocess.run(['clang', '--version'], capture_output=True, text=True).stdout).group(1)
    except Exception:
        return '?'


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
