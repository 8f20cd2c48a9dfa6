"""Discharging of the generated obligations."""
import time, subprocess, os, pickle, re
import z3
from terms import *


INV_WORK = int(float(os.environ.get("INV_WORK", 1e6)))


class Result:
    def __init__(self):
        self.failed = []      # (Obl, reason, model text)
        self.total = 0
        self.discharged = 0
        self.trivial = 0
        self.time = 0.0
        self.backends = {}
        self.kept = []        # names of loop invariants kept
        self.vacuous = None
        self.queries = 0


def mk_solver(timeout):
    s = z3.Solver()
    s.set('smt.mbqi', False)
    s.set('auto_config', False)
    s.set('timeout', int(timeout * 1000))
    s.set('smt.random_seed', 7)
    return s


def case_split(goal, preds):
    """The cases of the given predicates for the terms the goal applies one of them to."""
    names = {p.name(): p for p in preds}
    seen, args, work = set(), {}, [goal]
    while work and names:
        e = work.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            work.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl().name() in names and not has_var(e.arg(0)):
                args[e.arg(0).get_id()] = e.arg(0)
            work += e.children()
    cases = [[]]
    for a in args.values():
        for p in preds:
            cases = [c + [x] for c in cases for x in (p(a), z3.Not(p(a)))]
    return cases if len(cases) > 1 and len(args) == 1 else []


def has_var(e):
    return z3.is_var(e) or any(has_var(c) for c in e.children())


class Prover:
    def __init__(self, eng, timeout=8.0, inv_timeout=2.0, deadline=None, procs=4, boost=1):
        self.eng, self.procs = eng, procs
        self.cores = {}
        self.timeout, self.inv_timeout = timeout, inv_timeout
        self.deadline = deadline or (time.time() + 600)
        self.res = Result()
        self.boost = boost * eng.top.con.work if getattr(eng, 'top', None) is not None and eng.top.con is not None else boost

    # ---- lemma saturation
    def lemmas(self, exprs, rounds=3):
        eng = self.eng
        seen = {}
        new = subterms(exprs, seen)
        allterms = list(new)
        out = []
        outids = set()
        for r in range(rounds):
            ls = []
            for sp in eng.specs:
                ls += sp.lemmas(eng, new, allterms, r)
            ls += string_lemmas(allterms)
            ls = [l for l in ls if l.get_id() not in outids]
            for l in ls:
                outids.add(l.get_id())
            out += ls
            new = subterms(ls, seen)
            allterms += new
            if not new:
                break
        self._keep = allterms
        return out

    def run(self):
        eng, res = self.eng, self.res
        t0 = time.time()
        exprs = list(eng.facts) + [o.goal for o in eng.obls] + [o.reach for o in eng.obls]
        self.lem = self.lemmas(exprs)
        self.houdini()
        lits = [c.lit for c in eng.cands if c.alive]
        res.kept = [c.loop + ': ' + c.name for c in eng.cands if c.alive]
        # proper obligations, in program order
        asserts = [o for o in eng.obls if o.kind == 'assert']
        res.total = len(asserts)
        self.vacuity(lits)
        todo = [i for i, o in enumerate(asserts) if not z3.is_true(o.goal)]
        res.trivial = res.discharged = len(asserts) - len(todo)
        k = min(self.procs, len(todo) // 100)
        if k > 1:
            self.shard(asserts, todo, lits, k)
        else:
            self.chunk(asserts, todo, lits)
        res.time = time.time() - t0
        return res

    def chunk(self, asserts, todo, lits):
        eng, res = self.eng, self.res
        s, pos, cur = None, 0, None
        for i in todo:
            o = asserts[i]
            anc = eng.ancestors(o.reach)
            if anc != cur or s is None or pos > o.nfacts:
                s, pos, cur = mk_solver(self.timeout), 0, anc
                s.add(*self.lem)
                s.add(*lits)
            s.add(*eng.relevant(anc, pos, o.nfacts))
            pos = o.nfacts
            if self.prove(s, o, lits):
                res.discharged += 1

    def shard(self, asserts, todo, lits, k):
        """Discharges the obligations in k forked processes."""
        res = self.res
        index = {id(o): i for i, o in enumerate(asserts)}
        n = (len(todo) + k - 1) // k
        kids = []
        for c in range(k):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.res = Result()
                    self.chunk(asserts, todo[c * n:(c + 1) * n], lits)
                    x = self.res
                    out = pickle.dumps((x.discharged, x.backends, x.queries, [(index[id(o)], why, m) for o, why, m in x.failed]))
                    with os.fdopen(w, 'wb') as f:
                        f.write(out)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r, todo[c * n:(c + 1) * n]))
        for pid, r, part in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                d, be, q, failed = pickle.loads(data)
            except Exception:
                res.failed += [(asserts[i], 'the solver process ended', None) for i in part]
                continue
            res.discharged += d
            res.queries += q
            for x, y in be.items():
                res.backends[x] = res.backends.get(x, 0) + y
            res.failed += [(asserts[i], why, m) for i, why, m in failed]

    def check(self, s, timeout, assuming=()):
        self.res.queries += 1
        left = self.deadline - time.time()
        if left <= 0:
            return z3.unknown
        s.set('timeout', int(max(50, min(timeout, left) * 1000)))
        return s.check(*assuming)

    def prove(self, s, o, lits):
        res = self.res
        s.push()
        s.add(o.reach, z3.Not(o.goal))
        r = self.check(s, self.timeout)
        model = None
        reason = ''
        if r == z3.unsat:
            s.pop()
            res.backends['z3'] = res.backends.get('z3', 0) + 1
            return True
        reason = 'sat' if r == z3.sat else 'unknown: ' + s.reason_unknown()
        try:
            model = self.model_text(s.model(), o)
        except z3.Z3Exception:
            model = None
        s.pop()
        # only the invariants that say the same, in two parts
        mine = {c.lit.get_id() for c in self.eng.cands if c.name.endswith((' (old)', ' (last)')) and c.name.rsplit(' (', 1)[0] in o.label}
        if mine and self.eng.top.con.cores:
            others = {c.lit.get_id() for c in self.eng.cands if c.name.endswith((' (old)', ' (last)'))} - mine
            for seed in (7, 21, 22):
                s2 = mk_solver(self.timeout)
                s2.set('smt.random_seed', seed)
                s2.add(*self.lem)
                s2.add(*[l for l in lits if l.get_id() not in others])
                s2.add(*self.eng.relevant(self.eng.ancestors(o.reach), 0, o.nfacts))
                s2.add(o.reach, z3.Not(o.goal))
                if self.check(s2, self.timeout) == z3.unsat:
                    res.backends['z3-fresh'] = res.backends.get('z3-fresh', 0) + 1
                    return True
        # a fresh solver, other seeds, another solver
        for k, be in enumerate(('z3-fresh', 'cvc5')):
            if time.time() > self.deadline:
                break
            ok = False
            if be == 'z3-fresh':
                s2 = mk_solver(self.timeout)
                s2.set('smt.random_seed', 99)
                s2.add(*self.lem)
                s2.add(*lits)
                s2.add(*self.eng.relevant(self.eng.ancestors(o.reach), 0, o.nfacts))
                s2.add(o.reach, z3.Not(o.goal))
                ok = self.check(s2, self.timeout) == z3.unsat
            else:
                ok = self.cvc5(o, lits)
            if ok:
                res.backends[be] = res.backends.get(be, 0) + 1
                return True
        res.failed.append((o, reason, model))
        return False

    def cvc5(self, o, lits):
        s2 = z3.Solver()
        s2.add(*self.lem)
        s2.add(*lits)
        s2.add(*self.eng.relevant(self.eng.ancestors(o.reach), 0, o.nfacts))
        s2.add(o.reach, z3.Not(o.goal))
        txt = '(set-logic ALL)\n' + s2.sexpr() + '\n(check-sat)\n'
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(self.timeout * 1000)],
                               input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=self.timeout + 5)
            return r.stdout.strip().startswith(b'unsat')
        except Exception:
            return False

    def model_text(self, m, o):
        out = []
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                n = d.name()
                if n.startswith(('B!', 'inv!', 'm!', 'h_', 'H0_', 'c_', 'row!')):
                    continue
                t = str(v)
                if len(t) < 80:
                    out.append('%s = %s' % (n, t))
        return '; '.join(sorted(out)[:60])

    def check_work(self, s, work, assuming=(), secs=20):
        """A check limited by the solver's own count of its work: a loaded machine changes nothing."""
        s.set('rlimit', work)
        try:
            return self.check(s, secs, assuming)
        finally:
            s.set('rlimit', 0)

    # ---- loop invariants
    def houdini(self):
        eng = self.eng
        if not eng.cands:
            return
        invs = [o for o in eng.obls if o.kind == 'inv']
        groups = []
        for o in invs:
            if z3.is_true(o.goal):
                continue
            if groups and groups[-1][0].nfacts == o.nfacts and groups[-1][0].reach.eq(o.reach):
                groups[-1].append(o)
            else:
                groups.append([o])
        rounds = 0
        while True:
            rounds += 1
            killed = False
            lits = [c.lit for c in eng.cands if c.alive]
            # dead candidates are simply not assumed
            s, pos, cur = None, 0, None
            for g in groups:
                live = [o for o in g if o.cand.alive]
                if not live:
                    continue
                anc = eng.ancestors(g[0].reach)
                if anc != cur or s is None:
                    s, pos, cur = mk_solver(self.inv_timeout), 0, anc
                    s.add(*self.lem)
                s.add(*eng.relevant(anc, pos, g[0].nfacts))
                pos = g[0].nfacts
                killed |= self.group(s, live, lits)
                lits = [c.lit for c in eng.cands if c.alive] if killed else lits
                if time.time() > self.deadline:
                    for c in eng.cands:
                        c.alive = False
                    return
            if not killed:
                break
        self.res.rounds = rounds

    def group_cores(self, live, lits):
        """Each candidate on its own, in several processes; one whose proof used only candidates still alive is not
        proved again."""
        alive = {c.lit.get_id(): i for i, c in enumerate(self.eng.cands) if c.alive}
        todo = []
        for o in live:
            got = self.cores.get(id(o))
            if got is None or not got <= set(alive.values()):
                todo.append(o)
        generic = lambda o: o.cand.name.endswith(' same') or re.match(r't\d+ ', o.cand.name)
        todo.sort(key=lambda o: bool(generic(o)))
        lits = [l for l in lits if l.get_id() in alive]

        def one(o):
            base = self.eng.relevant(self.eng.ancestors(o.reach), 0, o.nfacts)
            c0 = time.process_time()
            core = set()

            # an invariant in two parts does not usually need the parts of others
            base_of = lambda n: n.rsplit(' (', 1)[0] if n.endswith((' (old)', ' (last)')) else None
            mine = base_of(o.cand.name)
            names = {c.lit.get_id(): base_of(c.name) for c in self.eng.cands}
            few = [l for l in lits if names.get(l.get_id()) in (None, mine)]

            def attempt(seed, share, extra, lits=lits):
                nonlocal s
                s = mk_solver(self.timeout)
                s.set('smt.random_seed', seed)
                s.add(*self.lem)
                s.add(*base)
                s.add(o.reach, z3.Not(o.goal), *extra)
                r = self.check_work(s, INV_WORK * self.boost * share, lits, 90)
                if r == z3.unsat:
                    core.update(alive[l.get_id()] for l in s.unsat_core() if l.get_id() in alive)
                return r
            s = None
            cases = [] if generic(o) else case_split(o.goal, self.eng.top.con.split)
            r = attempt(7, 1 if generic(o) else 5, [], lits if generic(o) else few)
            if r != z3.unsat and not generic(o):
                for case in cases or [[]]:
                    for seed, share in ((11, 4), (12, 4), (13, 4), (14, 10), (15, 10)):
                        r = attempt(seed, share, case, few if seed < 13 else lits)
                        if r == z3.unsat:
                            break
                    if r != z3.unsat:
                        break
            if os.environ.get('HD'):
                print('cand %-9s %5.2f %s %s %s' % (r, time.process_time() - c0, o.label[:60], o.cand.name, s.reason_unknown() if r != z3.unsat else ''), flush=True)
            return sorted(core) if r == z3.unsat else None
        done = {}
        k = min(self.procs + 2, max(1, len(todo) // 3))
        kids = []
        for c in range(k):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = pickle.dumps([(i, one(todo[i])) for i in range(c, len(todo), k)])
                    with os.fdopen(w, 'wb') as f:
                        f.write(out)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                done.update(pickle.loads(data))
            except Exception:
                pass
        self.res.queries += len(todo)
        for i, o in enumerate(todo):
            core = done.get(i)
            if core is None:
                o.cand.alive = False
            else:
                self.cores[id(o)] = set(core)
        return any(not o.cand.alive for o in todo)

    def group(self, s, live, lits):
        if self.eng.top.con.cores:
            return self.group_cores(live, lits)
        s.push()
        s.add(live[0].reach)
        s.add(*lits)
        s.push()
        s.add(z3.Or(*[z3.Not(o.goal) for o in live]))
        r = self.check_work(s, 4 * INV_WORK * self.boost)
        s.pop()
        killed = False
        if r != z3.unsat:
            for o in live:
                s.push()
                s.add(z3.Not(o.goal))
                c0 = time.process_time()
                r = self.check_work(s, INV_WORK * self.boost * (1 if o.cand.name.endswith(' same') else 10))
                s.pop()
                if os.environ.get('HD'):
                    print('cand %-9s %5.2f %s %s %s %s' % (r, time.process_time() - c0, [s.statistics().get_key_value(k) for k in s.statistics().keys() if 'rlimit' in k], o.label[:60], o.cand.name, s.reason_unknown() if r != z3.unsat else ''), flush=True)
                if r != z3.unsat:
                    o.cand.alive = False
                    killed = True
        s.pop()
        return killed

    def vacuity(self, lits):
        """The precondition together with the background facts must not be contradictory,
        and some exit must not be provably unreachable."""
        eng = self.eng
        s = mk_solver(3)
        s.add(*self.lem)
        s.add(*eng.facts[:eng.nfacts_pre])
        if self.check(s, 3) == z3.unsat:
            self.res.vacuous = 'contradictory precondition'
            return
        s.add(*lits)
        s.add(*eng.facts[eng.nfacts_pre:])
        exits = getattr(eng, 'exit_reaches', [])
        if exits:
            s.add(z3.Or(*exits))
            if self.check(s, 3) == z3.unsat:
                self.res.vacuous = 'no exit reachable'
