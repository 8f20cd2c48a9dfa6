"""check.py PROP [quick|thorough]

Decides one property on /repo's current tree: generates the obligations of every function
under contract from the SSA form of the tree and has the solvers discharge them; looks for
a failing input with the oracle when one is not discharged."""
import sys, os, time, json, subprocess, shutil, traceback, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'gv'))
os.environ.setdefault('GV_BUILD', os.path.join(HERE, '.build'))
REPO = os.environ.get('REPO', '/repo')
import prog as P
import plan as PL

PROG = None


def build_oracle():
    """Builds the oracle against REPO's current tree (never cached: the tree may have changed)."""
    d = os.path.join(P.BUILD, 'oracle.%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    src = os.path.join(HERE, 'harness')
    for f in os.listdir(src):
        if f.endswith('.go'):
            shutil.copy(os.path.join(src, f), d)
    t = open(os.path.join(src, 'go.mod.in')).read().replace('@REPO@', REPO)
    open(os.path.join(d, 'go.mod'), 'w').write(t)
    r = subprocess.run(['go', 'build', '-o', 'oracle', '.'], cwd=d, env=P.go_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise RuntimeError('building the oracle failed:\n' + r.stdout.decode()[:4000])
    r = subprocess.run(['go', 'build', '-o', os.path.join(d, 'cljfmt'), './cljfmt'], cwd=REPO, env=P.go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise RuntimeError('building cljfmt failed:\n' + r.stdout.decode()[:4000])
    return d


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class OracleRun:
    """N oracle processes with different seeds."""

    def __init__(self, d, prop, secs, seed, n):
        self.d, self.prop, self.secs = d, prop, secs
        self.procs = []
        env = dict(os.environ)
        env['CLJFMT_BIN'] = os.path.join(d, 'cljfmt')
        for i in range(n):
            w = os.path.join(d, 'w%d' % i)
            os.makedirs(w, exist_ok=True)
            env2 = dict(env)
            env2['TMPDIR'] = w
            env2['HOME'] = w
            env2['GOMAXPROCS'] = '2'
            env2['GOTRACEBACK'] = 'single'
            o = open(os.path.join(w, 'stdout'), 'wb')
            e = open(os.path.join(w, 'stderr'), 'wb')
            p = subprocess.Popen([os.path.join(d, 'oracle'), '-prop', prop, '-seed', str(seed * 1000 + i),
                                  '-secs', str(secs), '-cur', os.path.join(w, 'cur'),
                                  '-out', os.path.join(w, 'fail')], cwd=w, env=env2, stdout=o, stderr=e,
                                 preexec_fn=limit, start_new_session=True)
            self.procs.append((p, w))

    def wait(self):
        """(cases, distinct, samples, rule, failure or None)"""
        cases = distinct = 0
        samples, rule, fail = [], '', None
        end = time.time() + self.secs + 40
        todo = list(self.procs)
        while todo and fail is None:
            for p, w in list(todo):
                if p.poll() is None:
                    continue
                todo.remove((p, w))
                out = open(os.path.join(w, 'stdout')).read()
                if p.returncode == 0:
                    j = json.loads(out or '{}')
                    cases += j.get('cases', 0)
                    distinct += j.get('distinct', 0)
                    rule = j.get('rule', rule)
                    if j.get('sample') and len(samples) < 3:
                        samples.append(json.dumps(j['sample'])[:600])
                elif os.path.exists(os.path.join(w, 'fail')):
                    fail = json.load(open(os.path.join(w, 'fail')))
                else:
                    # the process died: the case it was running is the failing one
                    err = open(os.path.join(w, 'stderr'), errors='replace').read()
                    try:
                        cur = json.load(open(os.path.join(w, 'cur')))
                    except Exception:
                        cur = None
                    if cur is None:
                        raise RuntimeError('oracle ended without a case: ' + err[:1000])
                    fail = {'Property': self.prop, 'Message': 'the process died: ' + err[:1500], 'Case': cur}
            if time.time() > end:
                break
            time.sleep(0.05)
        for p, w in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        return cases, distinct, samples, rule, fail


def confirm(d, fail):
    """Runs the failing case again, alone."""
    f = os.path.join(d, 'again.json')
    json.dump(fail, open(f, 'w'))
    env = dict(os.environ)
    env['CLJFMT_BIN'] = os.path.join(d, 'cljfmt')
    w = os.path.join(d, 'wa')
    os.makedirs(w, exist_ok=True)
    env['TMPDIR'] = env['HOME'] = w
    try:
        r = subprocess.run([os.path.join(d, 'oracle'), '-replay', f], cwd=w, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return 'hangs'
    return None if r.returncode == 0 else (r.stdout.decode(errors='replace') or r.stderr.decode(errors='replace'))[:3000]


# ---------------------------------------------------------------- proof
def verify_one(job):
    prop, name, tier, deadline, boost = job
    import engine, solve, specs
    from prog import Unsupported
    t0 = time.time()
    out = dict(fn=name, failed=[], total=0, discharged=0, trivial=0, backends={}, kept=0, cands=0, queries=0)
    try:
        R = specs.Registry(PROG, specs.MODULES)
        if PROG.fns.get(name) is None and name not in R.lemmas:
            out['failed'].append(dict(label='function under contract is missing: ' + name, line=0, reason='missing'))
            return out
        eng = engine.Engine(PROG, R, PL.PLAN[prop]['tags'])
        eng.specs = R.spec_objs
        eng.verify_function(name)
        out['gen_s'] = time.time() - t0
        q = 10.0 if tier == 'quick' else 30.0
        pr = solve.Prover(eng, q * boost, deadline=deadline, boost=boost)
        res = pr.run()
        out.update(total=res.total, discharged=res.discharged, trivial=res.trivial, backends=res.backends,
                   solve_s=res.time, queries=res.queries, cands=len(eng.cands), kept=len(res.kept),
                   contracts=sorted(eng.used_contracts), inlined=sorted(eng.inlined), externs=sorted(eng.externs),
                   opaque=sorted(eng.opaque_fns), assumed=sorted(eng.assumed),
                   hash=vc_hash(eng))
        out['labels'] = [(o.label, o.tag) for o in eng.obls if o.kind == 'assert' and o.tag not in (None, 'safe', 'frame')][:400]
        for o, r, m in res.failed:
            out['failed'].append(dict(label=o.label, tag=str(o.tag), fn=o.fn, line=o.line, reason=r, model=(m or '')[:4000],
                                      goal=str(o.goal)[:2000]))
        if res.vacuous:
            out['failed'].append(dict(label='vacuous: ' + res.vacuous, line=0, reason='vacuous'))
        elif res.total == 0:
            out['failed'].append(dict(label='no obligation was generated', line=0, reason='empty'))
    except Unsupported as e:
        out['failed'].append(dict(label='outside the verifier\'s reach: %s' % e, line=0, reason='unsupported'))
    except Exception:
        out['failed'].append(dict(label='verifier error', line=0, reason=traceback.format_exc()[-3000:]))
    out['wall_s'] = time.time() - t0
    return out


def vc_hash(eng):
    import hashlib
    h = hashlib.sha256()
    for o in eng.obls:
        h.update(str(o.label).encode())
    return h.hexdigest()[:16]


def run_proofs(prop, tier, secs, names=None, boost=1):
    global PROG
    if names is None:
        PROG = P.load(REPO)
        names = PL.functions(prop, PROG)
    deadline = time.time() + secs
    jobs = [(prop, n, tier, deadline, boost) for n in names]
    if not jobs:
        return []
    with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
        rs = [pool.apply_async(verify_one, (j,)) for j in jobs]
        out = []
        for j, r in zip(jobs, rs):
            try:
                out.append(r.get(timeout=max(5, deadline + 60 - time.time())))
            except mp.TimeoutError:
                out.append(dict(fn=j[1], total=0, discharged=0, trivial=0, backends={},
                                failed=[dict(label='verification did not finish', line=0, reason='timeout')]))
        pool.terminate()
    return out


def known_findings(prop):
    f = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: property=%s ' % prop):])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    pl = PL.PLAN[prop]
    qsecs, dsecs, proof_secs = (12, 75, 560) if tier == 'quick' else (120, 240, 480)
    oracle_dir = None
    reps = os.path.join(HERE, 'replays')
    os.makedirs(reps, exist_ok=True)
    replay = os.path.join(reps, prop + '.json')
    if os.path.exists(replay):
        os.unlink(replay)
    status = None
    try:
        oracle_dir = build_oracle()
        res = run_proofs(prop, tier, proof_secs)
        t1 = time.time()
        failed = [(r['fn'], f) for r in res for f in r['failed']]
        n = 6
        orun = OracleRun(oracle_dir, prop, dsecs if failed else qsecs, seed, n)
        cases, distinct, samples, rule, fail = orun.wait()
        if fail is not None:
            again = confirm(oracle_dir, fail)
            if again is None:
                print('note: a failing case did not fail again when run alone: %s' % json.dumps(fail)[:1000])
                fail['Message'] += '\n(did not fail again when run alone)'
        elif failed:
            # no failing input: the functions concerned are verified once more, with more time
            again = sorted({f for f, x in failed if x['reason'] not in ('missing', 'unsupported')})
            left = (780 if tier == 'quick' else 1500) - (time.time() - t0)
            if again and left > 60:
                res2 = {r['fn']: r for r in run_proofs(prop, tier, left - 30, again, 3)}
                res = [res2.get(r['fn'], r) for r in res]
                failed = [(r['fn'], f) for r in res for f in r['failed']]
        for k in known_findings(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        total = sum(r['total'] for r in res)
        disch = sum(r['discharged'] for r in res)
        nviol = len(failed) + (1 if fail else 0)
        write_evidence(prop, tier, seed, pl, res, total, disch, cases, distinct, samples, rule, t1 - t0, time.time() - t0, nviol, failed)
        for f, x in failed[:20]:
            print('not discharged: %s:%s: %s [%s] %s' % (x.get('fn', f), x.get('line', 0), x['label'], x.get('tag', ''), x['reason'][:300]))
        print('%s: %d functions under contract, %d/%d obligations discharged, %d oracle cases (%d distinct), %.0f s' % (
            prop, len(res), disch, total, cases, distinct, time.time() - t0))
        if fail is not None:
            fail['Obligations'] = [dict(x, function=f) for f, x in failed][:20]
            json.dump(fail, open(replay, 'w'), indent=1)
            print('failing input: %s' % json.dumps(fail.get('Case'))[:1500])
            print('failure: %s' % str(fail.get('Message'))[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            status = 1
        elif failed:
            json.dump(dict(Property=prop, Obligations=[dict(x, function=f) for f, x in failed],
                           Note='obligations the verifier did not discharge on the current source; the search for a '
                                'failing input (%d cases) found none' % cases), open(replay, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
            status = 1
        else:
            status = 0
    finally:
        if oracle_dir:
            shutil.rmtree(oracle_dir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(status if status is not None else 2)


def write_evidence(prop, tier, seed, pl, res, total, disch, cases, distinct, samples, rule, proof_s, wall, nviol, failed):
    be = {}
    for r in res:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
        be['simplifier'] = be.get('simplifier', 0) + r['trivial']
    un = lambda k: sorted({x for r in res for x in r.get(k, [])})
    under = [r['fn'] for r in res]
    cov = dict(
        obligations=total, discharged=disch,
        checker_cmd='python3-vt check.py %s %s' % (prop, tier),
        trusted_base=PL.TCB,
        covers=pl['covers'],
        functions_under_contract=[dict(function=r['fn'], obligations=r['total'], discharged=r['discharged'],
                                       loop_invariants=r.get('kept', 0), solver_s=round(r.get('solve_s', 0), 2)) for r in res],
        callee_contracts_used=[x for x in un('contracts') if x not in under],
        inlined_into_callers=un('inlined'),
        treated_as_arbitrary=un('opaque'),
        external_functions=un('externs'),
        discharged_by=be,
        solver_s=round(sum(r.get('solve_s', 0) for r in res), 2),
        proof_wall_s=round(proof_s, 1),
        not_discharged=['%s: %s' % (f, x['label']) for f, x in failed],
        bounded_complement=dict(
            what='the oracle runs the real code on generated inputs and compares it with an independent statement of the '
                 'property; it supplies failing inputs and is never counted as proved',
            evaluations=cases, distinct_nontrivial=distinct, rule=rule, samples=samples[:3]),
    )
    if pl.get('bounded'):
        cov['bounded_parts'] = pl['bounded']
    ev = dict(property=prop, tier=tier, seed=seed, level=pl.get('level', 'proof'), coverage=cov,
              assumptions=PL.ASSUME + un('assumed') + pl.get('assume', []), wall_s=round(wall, 1), violations=nviol)
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
