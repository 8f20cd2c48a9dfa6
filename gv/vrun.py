"""Verify functions from the command line:  vrun.py TAGS FUNC..."""
import sys, os, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog as P, engine, solve, specs
from prog import Unsupported


def verify(p, R, tags, name, timeout=8.0, deadline=None, verbose=False):
    eng = engine.Engine(p, R, tags)
    eng.specs = R.spec_objs
    t0 = time.time()
    eng.verify_function(name)
    t1 = time.time()
    pr = solve.Prover(eng, timeout, deadline=deadline)
    res = pr.run()
    return eng, res, t1 - t0


def main():
    a = sys.argv[1:]
    repo = os.environ.get('REPO', '/repo')
    p = P.load(repo)
    R = specs.Registry(p, specs.MODULES)
    tags = a[0].split(',')
    names = []
    for x in a[1:]:
        names += [n for n in list(R.contracts) + list(R.lemmas) if (x in n if not x.startswith('=') else n == x[1:])]
    for n in names:
        try:
            eng, res, tg = verify(p, R, tags, n)
        except Unsupported as e:
            print('UNSUPPORTED %s: %s' % (n, e))
            if os.environ.get('TB'):
                traceback.print_exc()
            continue
        if os.environ.get('Q') and not res.failed and not res.vacuous:
            continue
        print('%-45s %d/%d (trivial %d) cands %d/%d facts %d lem %d gen %.1fs solve %.1fs %s' % (
            n, res.discharged, res.total, res.trivial, sum(c.alive for c in eng.cands), len(eng.cands),
            len(eng.facts), 0, tg, res.time, res.vacuous or ''))
        if os.environ.get('KEPT'):
            for k in res.kept:
                print('   inv', k)
        for o, r, m in res.failed:
            print('   FAILED %s:%d %s [%s] %s' % (o.fn, o.line, o.label, o.tag, r))
            if os.environ.get('MODEL'):
                print('      ', m)


if __name__ == '__main__':
    main()
