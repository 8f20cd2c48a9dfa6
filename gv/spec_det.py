"""C12: the order in which a map is iterated does not show.

Every loop over a map is under one obligation: the state in which it ends is the same for every
order.  The loop's invariants (which mention the keys visited, not their order) hold of two
executions from the same state; whatever the rest of the program can see of the two must agree.
The one function whose loop collects keys in a slice, sortStringSet, has a contract that
determines its result instead: the keys of the set, each once, in ascending order.

Everything else a run does is sequential Go code and so a function of its input; a lemma
enumerates the other sources of difference (select, goroutines, clocks, random numbers, pointers
as numbers, variables of the package that one run leaves to the next)."""
import re, z3
from terms import *
from contracts import *
import engine
from engine import Slice, Iter, TupleV, StructV

SET = 'map[string]struct{}'
REQ = '(*format.symbolCache).unused'


def map_loops(prog):
    """Functions of the repository with a loop over a map."""
    out = []
    for n, g in sorted(prog.fns.items()):
        if g is None or not g.blocks:
            continue
        if any(i['op'] == 'Range' and prog.kind(i['x']['t']) == 'map' for b in g.blocks for i in b['ins']):
            out.append(n)
    return out


NUM = re.compile(r'!(\d+)$')


def renaming(eng, fs, n0):
    """Copies of the constants made after the n0th that occur in fs."""
    out, seen = {}, set()
    todo = list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            for i in range(e.num_patterns()):
                todo.append(e.pattern(i))
            continue
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = e.decl().name()
                m = NUM.search(nm)
                if m and int(m.group(1)) > n0 and not nm.startswith(('inv!', 'str!')):
                    out[nm] = (e, z3.Const(nm + "'", e.sort()))
            todo.extend(e.children())
    return list(out.values())


def parts_of(eng, st, v):
    if isinstance(v, Slice):
        return [v.arr, v.off, v.len]
    if isinstance(v, TupleV):
        return [x for y in v.vs for x in parts_of(eng, st, y)]
    if isinstance(v, StructV):
        return [x for n in sorted(v.f) for x in parts_of(eng, st, v.f[n])]
    if isinstance(v, z3.ExprRef):
        return [v]
    return []


def observables(lv, t, s, p):
    """What the code after the loop can see of the values computed in it."""
    eng, fr, f = lv.eng, lv.fr, lv.fn
    vs = []
    inner = set()
    for b in range(len(f.blocks)):
        if b in lv.body:
            continue
        for ins in f.blocks[b]['ins']:
            if ins['op'] == 'Phi':
                if b == t:
                    k = f.blocks[b]['preds'].index(p)
                    a = ins['args'][k]
                    vs += parts_of(eng, s, eng.esc(s, eng.val(fr, s, a)))
                continue
            for a in eng.operands(ins):
                if a['k'] == 'r' and f.defblock.get(a['n']) in lv.body:
                    inner.add(a['n'])
    for n in sorted(inner):
        v = s.env.get((fr.depth, n))
        if v is not None and not isinstance(v, Iter):
            vs += parts_of(eng, s, eng.esc(s, v))
    return vs


def over_map(lv):
    """The loop is one over a map: its header advances the iterator."""
    return bool(iters(lv)) and any(i['op'] == 'Next' for i in lv.fn.blocks[lv.h]['ins'])


def loop_done(lv, mark, out, rets):
    eng = lv.eng
    if 'C12' not in eng.tags or not over_map(lv):
        return
    con = eng.top.con
    if getattr(con, 'collects', False):
        return
    hide = hidden(lv)
    window = list(eng.facts[mark[0]:])
    exits = [(t, s, observables(lv, t, s, p)) for t, s, p in out] + \
            [('return', s, [x for v in vs for x in parts_of(eng, s, eng.esc(s, v))]) for s, vs, _ in rets]
    exits = [e for e in exits if not z3.is_false(e[1].reach)]
    keys = [k for k in sorted(lv.mods, key=str) if k not in hide]
    terms = window + [x for _, s, vs in exits for x in vs + [s.reach] + [eng.comp(s, k) for k in keys] + [s.cells[c] for c in lv.cells if isinstance(s.cells.get(c), z3.ExprRef)]]
    ren = renaming(eng, terms, mark[1])
    sub = lambda e: z3.substitute(e, *ren) if ren else e
    copy = [sub(f) for f in window]
    q = eng.fresh('sk', Int)
    for i, (t1, s1, v1) in enumerate(exits):
        for t2, s2, v2 in exits[i:]:
            hyp = z3.And(*(copy + [sub(s2.reach)]))
            if t1 != t2:
                eng.oblige(s1, z3.Implies(hyp, F), 'the loop over a map ends in the same place for every order', 'C12', assume=False)
                continue
            for a, b in zip(v1, v2):
                b = sub(b)
                if not a.eq(b):
                    eng.oblige(s1, z3.Implies(hyp, a == b), 'what a loop over a map computes is the same for every order', 'C12', assume=False)
            for k in keys:
                a, b = eng.comp(s1, k), sub(eng.comp(s2, k))
                if a.eq(b):
                    continue
                nm = 'what a loop over a map leaves in %s%s is the same for every order' % ({'MD': 'the keys of ', 'MV': 'the values of '}.get(k[0], ''), '.'.join(str(x) for x in k[1:] if x != ''))
                if not z3.is_array(a) or a.sort().domain() != Int:
                    goal = a == b
                else:
                    x, y = z3.Select(a, q), z3.Select(b, q)
                    if z3.is_array(x):
                        kk = eng.fresh('sk', x.sort().domain())
                        x, y = z3.Select(eng.named(x), kk), z3.Select(eng.named(y), kk)
                    goal = z3.Implies(z3.And(q < lv.pre.nxt, q > -engine.NEST * lv.pre.nxt), x == y)
                eng.oblige(s1, z3.Implies(hyp, goal), nm, 'C12', assume=False)
            for c in sorted(lv.cells):
                a = s1.cells.get(c)
                if isinstance(c, tuple) and c[0] == 'it' or not isinstance(a, z3.ExprRef):
                    continue
                b = sub(s2.cells[c])
                if not a.eq(b):
                    eng.oblige(s1, z3.Implies(hyp, a == b), 'a variable set by a loop over a map is the same for every order', 'C12', assume=False)


# ---------------------------------------------------------------- invariants
def places(lv, st, want):
    """Values of a kind reachable (two steps) from what the loop uses: (name, term)."""
    eng = lv.eng
    p = eng.prog
    out, seen = [], set()

    def add(nm, t, v):
        if isinstance(v, z3.ExprRef) and v.get_id() not in seen and want(t):
            seen.add(v.get_id())
            out.append((nm, t, v))

    def walk(nm, t, v, d):
        if isinstance(v, (engine.Loc, engine.LitSlice)):
            return
        if p.kind(t) == 'ptr' and p.is_struct(p.elem(t)) and isinstance(v, z3.ExprRef):
            struct(nm, p.elem(t), v, d)
        add(nm, t, v)

    def struct(nm, t, ref, d):
        if d > 2:
            return
        for i, f in enumerate(p.fields(t)):
            if p.is_struct(f['type']):
                struct(nm + '.' + f['name'], f['type'], eng.nested_ref(st, ref, i), d + 1)
            elif p.kind(f['type']) in ('map', 'basic', 'ptr'):
                try:
                    v = eng.load_key(st, ('F', f['name'], f['type']), f['type'], ref)
                except Exception:
                    continue
                add(nm + '.' + f['name'], f['type'], v)
                if p.kind(f['type']) == 'ptr' and p.is_struct(p.elem(f['type'])):
                    struct(nm + '.' + f['name'], p.elem(f['type']), v, d + 1)
    for n, t in sorted(regs_used(lv).items()):
        v = st.env.get((lv.fr.depth, n))
        if v is not None:
            walk(n, t, v, 0)
    return out


def cands(lv):
    eng = lv.eng
    if 'C12' not in eng.tags:
        return []
    out = []
    p = eng.prog
    for it in iters(lv) if over_map(lv) else []:
        mk = p.under(it.mt)
        ks = eng.sort_of(mk['key'])
        vis = lambda v, it=it: eng.named(v.st.cells[('it', it.eid)])
        kz = z3.Const('k!z', ks)
        out.append(('no keys visited of no map', lambda v, vis=vis, it=it, kz=kz: z3.Implies(it.m == 0, z3.ForAll([kz], z3.Not(z3.Select(vis(v), kz)), patterns=[z3.Select(vis(v), kz)]))))
        di = eng.named(z3.Select(eng.comp(lv.pre, ('MD', it.mt)), it.m))
        out.append(('keys visited were there at first', lambda v, vis=vis, di=di, kz=kz: z3.ForAll([kz], z3.Implies(
            z3.Select(vis(v), kz), z3.Select(di, kz)), patterns=[z3.Select(vis(v), kz)])))
        is_map = lambda t: p.kind(t) == 'map' and eng.sort_of(p.under(t)['key']) == ks
        maps = places(lv, lv.pre, is_map)
        if it.m.get_id() not in {m.get_id() for _, _, m in maps}:
            maps.append(('the map iterated', it.mt, it.m))
        sets = [(n, t, m) for n, t, m in maps if p.is_struct(p.under(t)['elem']) or eng.sort_of(p.under(t)['elem']) == Bool]
        strs = places(lv, lv.pre, lambda t: p.kind(t) == 'basic' and eng.sort_of(t) == Str)
        for nm, mt, m in maps:
            kd = ('MD', mt)
            if kd not in lv.mods:
                continue
            k = z3.Const('k!det', ks)
            q = z3.Int('q!det')
            D0 = lv.pre.comps.get(kd)
            if D0 is None:
                D0 = eng.comp(lv.pre, kd)
            out.append(('only %s changes' % nm, lambda v, kd=kd, D0=D0, m=m: z3.ForAll([q], z3.Implies(
                q != m, z3.Select(eng.named(eng.comp(v.st, kd)), q) == z3.Select(D0, q)), patterns=[z3.Select(eng.named(eng.comp(v.st, kd)), q)])))
            d0 = eng.named(z3.Select(D0, m))

            def shape(name, f, kd=kd, m=m):
                def inv(v):
                    d = eng.named(z3.Select(eng.comp(v.st, kd), m))
                    return z3.ForAll([k], z3.Select(d, k) == f(v, k), patterns=[z3.Select(d, k)])
                out.append((name, inv))
            shape('%s and the keys visited' % nm, lambda v, k, d0=d0, vis=vis: z3.Or(z3.Select(d0, k), z3.Select(vis(v), k)))
            for n3, t3, m3 in sets:
                if ('MD', t3) in lv.mods and m3.eq(m):
                    continue
                d3 = eng.named(z3.And(m3 != 0, F)) if False else eng.named(z3.Select(eng.comp(lv.pre, ('MD', t3)), m3))
                shape('%s without those visited that are not in %s' % (nm, n3), lambda v, k, d0=d0, d3=d3, m3=m3, vis=vis: z3.And(
                    z3.Select(d0, k), z3.Or(z3.Not(z3.Select(vis(v), k)), z3.And(m3 != 0, z3.Select(d3, k)))))
                shape('%s without those visited that are in %s' % (nm, n3), lambda v, k, d0=d0, d3=d3, m3=m3, vis=vis: z3.And(
                    z3.Select(d0, k), z3.Or(z3.Not(z3.Select(vis(v), k)), z3.Not(z3.And(m3 != 0, z3.Select(d3, k))))))
                shape('%s and the keys visited in %s' % (nm, n3), lambda v, k, d0=d0, d3=d3, m3=m3, vis=vis: z3.Or(
                    z3.Select(d0, k), z3.And(z3.Select(vis(v), k), m3 != 0, z3.Select(d3, k))))
                shape('%s and the keys visited not in %s' % (nm, n3), lambda v, k, d0=d0, d3=d3, m3=m3, vis=vis: z3.Or(
                    z3.Select(d0, k), z3.And(z3.Select(vis(v), k), z3.Not(z3.And(m3 != 0, z3.Select(d3, k))))))
            mm = p.under(mt)
            if p.is_struct(mm['elem']):
                continue
            for pt in eng.parts(mm['elem']):
                kv = ('MV', mt, pt)
                V0 = eng.comp(lv.pre, kv)
                out.append(('only values of %s change' % nm, lambda v, kv=kv, V0=V0, m=m: z3.ForAll([q], z3.Implies(
                    q != m, z3.Select(eng.named(eng.comp(v.st, kv)), q) == z3.Select(V0, q)), patterns=[z3.Select(eng.named(eng.comp(v.st, kv)), q)])))
                v0 = eng.named(z3.Select(V0, m))

                def vshape(name, f, kv=kv, m=m):
                    def inv(v):
                        w = eng.named(z3.Select(eng.comp(v.st, kv), m))
                        return z3.ForAll([k], z3.Select(w, k) == f(v, k), patterns=[z3.Select(w, k)])
                    out.append((name, inv))
                if mt == it.mt or eng.sort_of(p.under(it.mt)['elem']) == v0.sort().range() if not p.is_struct(p.under(it.mt)['elem']) else False:
                    wi = eng.named(z3.Select(eng.comp(lv.pre, ('MV', it.mt, pt)), it.m))
                    vshape('values of %s are those visited' % nm, lambda v, k, v0=v0, wi=wi, vis=vis: z3.If(
                        z3.Select(vis(v), k), z3.Select(wi, k), z3.Select(v0, k)))
                    # (or only where there was none)
                    vshape('values of %s are kept and those visited added' % nm, lambda v, k, v0=v0, wi=wi, vis=vis, d0=d0: z3.If(
                        z3.And(z3.Select(vis(v), k), z3.Not(z3.Select(d0, k))), z3.Select(wi, k), z3.Select(v0, k)))
                for sn, st_, sv in strs + [('nil', None, I(0)), ('true', None, T), ('false', None, F)]:
                    if sv.sort() == v0.sort().range():
                        vshape('values of %s for keys visited are %s' % (nm, sn), lambda v, k, v0=v0, sv=sv, vis=vis: z3.If(
                            z3.Select(vis(v), k), sv, z3.Select(v0, k)))
    return out


# ---------------------------------------------------------------- sortStringSet
def slt(a, b):
    return S.lt_(a, b)


def order_axioms(v):
    a, b, c = [z3.Const('s!%d' % i, Str) for i in (1, 2, 3)]
    return And(z3.ForAll([a, b], z3.Not(z3.And(slt(a, b), slt(b, a))), patterns=[z3.MultiPattern(slt(a, b), slt(b, a))]),
               z3.ForAll([a], z3.Not(slt(a, a)), patterns=[slt(a, a)]),
               z3.ForAll([a, b, c], z3.Implies(z3.And(slt(a, b), slt(b, c)), slt(a, c)), patterns=[z3.MultiPattern(slt(a, b), slt(b, c))]))


def sort_strings(eng, fr, st, a, ins):
    """sort.Strings: a permutation in ascending order."""
    s = eng.esc(st, a[0])
    k = ('E', 'string', '')
    H = eng.comp(st, k)
    r0 = eng.named(z3.Select(H, s.arr))
    r1 = eng.fresh('sorted', r0.sort())
    pf_, qf = [z3.Function('%s!%d' % (n, eng.counter), Int, Int) for n in ('perm', 'inv')]
    i, j = z3.Ints('i!s j!s')
    inr = lambda x: z3.And(x >= s.off, x < s.off + s.len)
    eng.fact(z3.ForAll([i], z3.If(inr(i), z3.And(inr(pf_(i)), qf(pf_(i)) == i, z3.Select(r1, i) == z3.Select(r0, pf_(i))),
                                  z3.Select(r1, i) == z3.Select(r0, i)), patterns=[z3.Select(r1, i)]), st)
    eng.fact(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(qf(i)), pf_(qf(i)) == i, z3.Select(r1, qf(i)) == z3.Select(r0, i))),
                       patterns=[z3.Select(r0, i)]), st)
    eng.fact(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), z3.Or(slt(z3.Select(r1, i), z3.Select(r1, j)), z3.Select(r1, i) == z3.Select(r1, j))),
                       patterns=[z3.MultiPattern(z3.Select(r1, i), z3.Select(r1, j))]), st)
    st.comps[k] = z3.Store(H, s.arr, r1)
    return []


def enum_clauses(v, s, dom):
    """(name, formula): the strings of slice s are the keys of dom, each once."""
    row = v.eng.named(v.row('string', s.arr))
    i, j = z3.Ints('i!e j!e')
    k = z3.Const('k!e', Str)
    inr = lambda x: z3.And(x >= s.off, x < s.off + s.len)
    return [('every string is a key', z3.ForAll([i], z3.Implies(inr(i), z3.Select(dom, z3.Select(row, i))), patterns=[z3.Select(row, i)])),
            ('every key is there', z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.Exists([i], z3.And(inr(i), z3.Select(row, i) == k))), patterns=[z3.Select(dom, k)])),
            ('no key twice', z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i != j), z3.Select(row, i) != z3.Select(row, j)),
                                       patterns=[z3.MultiPattern(z3.Select(row, i), z3.Select(row, j))]))]


def dom_of(v, m):
    k = z3.Const('k!d', Str)
    return v.eng.named(z3.If(m == 0, z3.K(Str, F), v.dom(SET, m)))


def sorted_set(R):
    n = 'format.sortStringSet'
    c = R.fn(n, 'set').tags_only('C12', 'C11')
    c.frame()
    c.collects = True
    c.axiom(None, 'order of strings', order_axioms)
    for i in range(3):
        c.ens(None, 'sorted set: ' + ['every string is a key', 'every key is there', 'no key twice'][i],
              lambda v, i=i: enum_clauses(v, v.ret, dom_of(v.pre, v.a('set')))[i][1])

    def ascending(v):
        row = v.eng.named(v.row('string', v.ret.arr))
        i, j = z3.Ints('i!e j!e')
        inr = lambda x: z3.And(x >= v.ret.off, x < v.ret.off + v.ret.len)
        return z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), slt(z3.Select(row, i), z3.Select(row, j))),
                         patterns=[z3.MultiPattern(z3.Select(row, i), z3.Select(row, j))])
    c.ens(None, 'ascending order', ascending)

    def inv(lv):
        out = []
        for it in iters(lv):
            if it.mt != SET:
                continue
            for ref, t in lv.vars['slice']:
                if t != '[]string':
                    continue
                for i in range(3):
                    out.append(('keys visited: %d' % i, lambda v, i=i, ref=ref, it=it: enum_clauses(
                        v.sv(), v.get(ref), v.eng.named(v.st.cells[('it', it.eid)]))[i][1]))
                out.append(('the slice is new', lambda v, ref=ref: Or(v.get(ref).cap == 0, v.get(ref).arr >= v.eng.top.nxt)))
        return out
    c.cand(inv)


# ---------------------------------------------------------------- entries of a require list
ENTRIES = 'map[string]*format.require'
UNUSED = '(*format.symbolCache).unused'
OWN = ('gh', 'entry_state')
step = z3.Function('entry_step', Int, Int, Int)     # what unused makes of what an entry owns
verdict = z3.Function('entry_unused', Int, Int, Bool)


def hidden(lv):
    """What the loop changes through unused only: the entry it is given, as the ghost entry_state says."""
    eng, f = lv.eng, lv.fn
    if not any(i['op'] == 'Call' and i['fn'].get('n') == UNUSED for b in lv.body for i in f.blocks[b]['ins']):
        return set()
    own = set(eng.fn_mods(UNUSED)) - {OWN}
    for b in lv.body:
        for i in f.blocks[b]['ins']:
            if i['op'] == 'Call' and i['fn'].get('n') == UNUSED:
                continue
            if i['op'] == 'Store':
                m, c, l = set(), set(), set()
                eng.store_mods(lv.fr, lv.pre, f, i, m, c, l, lv.body)
                own -= m
            else:
                own -= eng.instr_mods(f, i)
    return own


def entry_name(eng, st, r):
    return eng.load_key(st, ('F', 'name', 'string'), 'string', r)


def entries(R):
    g = R.prog.fns.get(UNUSED)
    if g is None or 'format.require' not in R.prog.types or not any(f['name'] == 'name' for f in R.prog.fields('format.require')):
        return
    R.ghosts['entry_state'] = z3.ArraySort(Int, Int)

    def keyed_next(eng, st, it, ok, k, v):
        if 'C12' in eng.tags and it.mt == ENTRIES:
            eng.fact(z3.Implies(ok, z3.And(v != 0, entry_name(eng, st, v) == k)), st)

    def keyed_set(eng, st, mt, m, k, v):
        if 'C12' in eng.tags and mt == ENTRIES:
            eng.oblige(st, z3.And(v != 0, entry_name(eng, st, v) == k), 'an entry is kept under its name', 'C12')
    R.map_next_hooks.append(keyed_next)
    R.map_set_hooks.append(keyed_set)
    c = R.fn(UNUSED, *[q['n'] for q in g.params]).tags_only('C12')
    c.raises('*')
    c.ghost_mods = {OWN}
    r, sc = (lambda v: v.a(1)), (lambda v: v.a(0))
    c.ens('C12', 'what becomes of the entry depends on the entry', lambda v: And(
        v.gh('entry_state') == z3.Store(v.pre.gh('entry_state'), r(v), step(z3.Select(v.pre.gh('entry_state'), r(v)), sc(v))),
        v.ret == verdict(z3.Select(v.pre.gh('entry_state'), r(v)), sc(v))), trusted=True)

    def nested_lists(v):
        return [v.N(r(v), 'format.require', f['name']) for f in R.prog.fields('format.require') if f['type'] == 'format.referList']

    def own_maps(v):
        out = [v.F(r(v), 'format.require', f['name']) for f in R.prog.fields('format.require') if f['type'] == SET]
        for x in nested_lists(v):
            out += [v.F(x, 'format.referList', f['name']) for f in R.prog.fields('format.referList') if f['type'] == SET]
        return out

    def own_only(v):
        q = z3.Int('q!own')
        out = []
        D1, D0 = v.eng.named(v.H(('MD', SET))), v.pre.H(('MD', SET))
        out.append(z3.ForAll([q], z3.Implies(And(q < v.pre.nxt, q > -engine.NEST * v.pre.nxt, *[q != m for m in own_maps(v.pre)]), z3.Select(D1, q) == z3.Select(D0, q)), patterns=[z3.Select(D1, q)]))
        for k in sorted(v.eng.fn_mods(UNUSED), key=str):
            if k[0] == 'F':
                A1, A0 = v.eng.named(v.H(k)), v.pre.H(k)
                mine = nested_lists(v.pre) if k[1] in [f['name'] for f in R.prog.fields('format.referList')] else [r(v)]
                out.append(z3.ForAll([q], z3.Implies(And(q < v.pre.nxt, q > -engine.NEST * v.pre.nxt, *[q != m for m in mine]),
                                                     z3.Select(A1, q) == z3.Select(A0, q)), patterns=[z3.Select(A1, q)]))
        return out
    for i in range(8):
        c.ens('C12', 'only what the entry owns changes (%d)' % i, lambda v, i=i: own_only(v)[i] if i < len(own_only(v)) else T)
    n = '(*format.referList).removeUnused'
    if R.prog.fns.get(n) is not None:
        c = R.fn(n, 'rl', 'sc').tags_only('C12')
        c.raises('*')

        def list_only(v):
            q = z3.Int('q!own')
            rl = v.a('rl')
            out = []
            D1, D0 = v.eng.named(v.H(('MD', SET))), v.pre.H(('MD', SET))
            ms = [v.pre.F(rl, 'format.referList', f['name']) for f in R.prog.fields('format.referList') if f['type'] == SET]
            out.append(z3.ForAll([q], z3.Implies(And(q < v.pre.nxt, q > -engine.NEST * v.pre.nxt, *[q != m for m in ms]), z3.Select(D1, q) == z3.Select(D0, q)), patterns=[z3.Select(D1, q)]))
            for k in sorted(v.eng.fn_mods(n), key=str):
                if k[0] == 'F':
                    A1, A0 = v.eng.named(v.H(k)), v.pre.H(k)
                    out.append(z3.ForAll([q], z3.Implies(And(q < v.pre.nxt, q > -engine.NEST * v.pre.nxt, q != rl),
                                                         z3.Select(A1, q) == z3.Select(A0, q)), patterns=[z3.Select(A1, q)]))
            return out
        for i in range(8):
            c.ens('C12', 'only the list and its set change (%d)' % i, lambda v, i=i: list_only(v)[i] if i < len(list_only(v)) else T)

    def inv(lv):
        out = []
        eng = lv.eng
        if 'C12' not in eng.tags or not over_map(lv):
            return out
        scs = [v for n, t, v in places(lv, lv.pre, lambda t: t == '*format.symbolCache')]
        for it in iters(lv):
            if it.mt != ENTRIES or OWN not in lv.mods:
                continue
            kd = ('MD', ENTRIES)
            D0 = eng.comp(lv.pre, kd)
            d0 = eng.named(z3.Select(D0, it.m))
            v0 = eng.named(z3.Select(eng.comp(lv.pre, ('MV', ENTRIES, '')), it.m))
            o0 = eng.named(eng.comp(lv.pre, OWN))
            nm = eng.named(eng.comp(lv.pre, ('F', 'name', 'string', '')))
            k, q = z3.Const('k!en', Str), z3.Int('q!en')
            for sc in scs:
                def doms(v, sc=sc, it=it):
                    vis = eng.named(v.st.cells[('it', it.eid)])
                    d = eng.named(z3.Select(eng.comp(v.st, kd), it.m))
                    return z3.ForAll([k], z3.Select(d, k) == And(z3.Select(d0, k), Not(And(
                        z3.Select(vis, k), verdict(z3.Select(o0, z3.Select(v0, k)), sc)))), patterns=[z3.Select(d, k)])

                def owns(v, sc=sc, it=it):
                    vis = eng.named(v.st.cells[('it', it.eid)])
                    o = eng.named(v.gh('entry_state') if hasattr(v, 'gh') else eng.comp(v.st, OWN))
                    kk = z3.Select(nm, q)
                    return z3.ForAll([q], z3.Select(o, q) == z3.If(And(z3.Select(vis, kk), z3.Select(v0, kk) == q), step(z3.Select(o0, q), sc), z3.Select(o0, q)),
                                     patterns=[z3.Select(o, q)])
                out.append(('entries kept are those not visited or used', doms))
                out.append(('entries visited have been reduced', owns))
        return out
    R.cands.append(inv)


# ---------------------------------------------------------------- other sources of difference
SOURCES = re.compile(r'^\(?\*?(time|rand|math/rand|math/rand/v2|crypto/rand|maphash|hash/maphash|runtime|maps|sync\.Map|reflect)\b')


def sources(R):
    p = R.prog

    def check(eng, st):
        for n, g in sorted(p.fns.items()):
            pk = n.split('.')[0].lstrip('(*')
            if g is None or not g.blocks or pk not in ('parse', 'format', 'goclj') or re.search(r'\.init(#\d+)?$', n):
                continue
            for b in g.blocks:
                for i in b['ins']:
                    bad = None
                    if i['op'] == 'Select':
                        bad = 'a select statement'
                    elif i['op'] == 'Go' and pk != 'parse':
                        bad = 'a goroutine beside the lexer'
                    elif i['op'] in ('Call', 'Defer', 'Go') and i['fn'].get('k') == 'f' and SOURCES.match(i['fn']['n']):
                        bad = 'a call of ' + i['fn']['n']
                    elif i['op'] == 'Convert' and p.kind(i.get('t', 'int')) == 'basic' and 'uintptr' in i.get('t', ''):
                        bad = 'an address as a number'
                    elif i['op'] == 'Store' and i['x'].get('k') == 'g':
                        bad = 'a variable one run leaves to the next: ' + i['x']['n']
                    if bad:
                        eng.cur_fn, eng.cur_line = n, i.get('line', 0)
                        eng.oblige(st, F, 'no source of difference between runs: ' + bad, 'C12', assume=False)
        eng.oblige(st, T, 'no select, clock, random number, address or left-over variable decides what is printed', 'C12', assume=False)
    R.lemmas['sources of difference'] = check


def callees(prog, n, memo={}):
    g = prog.fns.get(n)
    if (id(prog), n) not in memo:
        memo[id(prog), n] = {i['fn']['n'] for b in (g.blocks if g else []) for i in b['ins']
                             if i['op'] in ('Call', 'Defer', 'Go') and i['fn'].get('k') == 'f'}
    return memo[id(prog), n]


def recursive(prog, n):
    seen, todo = set(), list(callees(prog, n))
    while todo:
        m = todo.pop()
        if m == n:
            return True
        if m not in seen:
            seen.add(m)
            todo += callees(prog, m)
    return False


DEFAULTS = (('format.DefaultTransforms', 'map[format.Transform]bool'), ('format.defaultIndents', 'map[string]format.IndentStyle'),
            ('format.defaultThreadFirstStyles', 'map[string]format.ThreadFirstStyle'))


def same_map(v, gl, mt):
    eng = v.eng
    if mt not in eng.prog.types or ('MD', mt) not in eng.fn_mods(v.con.name):
        return T
    g = eng.glob_ref(gl)
    d1, d0 = v.dom(mt, g), v.pre.dom(mt, g)
    w1, w0 = [z3.Select(x.H(('MV', mt, '')), g) for x in (v, v.pre)]
    k = z3.Const('k!same', d1.sort().domain())
    d1, w1 = eng.named(d1), eng.named(w1)
    return z3.ForAll([k], And(z3.Select(d1, k) == z3.Select(d0, k), z3.Implies(z3.Select(d0, k), z3.Select(w1, k) == z3.Select(w0, k))), patterns=[z3.Select(d1, k)])


def det_module(R):
    def far(eng, name, g):
        # what a loop over a map leaves is judged in the function that has the loop
        if 'C12' not in eng.tags:
            return False
        pk = name.split('.')[0].lstrip('(*')
        return pk == 'parse' and len(g.blocks) > 3 or len(g.blocks) > 16 or recursive(R.prog, name) or name in map_loops(R.prog) \
            or any(recursive(R.prog, m) for m in callees(R.prog, name))
    R.opaque_rules.append(far)
    R.loop_done = loop_done
    R.no_cands.append(lambda lv: [c for c in generic_candidates(lv) if c[0].endswith('of old objects same') and c[0][:3] in ('MD.', 'MV.')]
                      if lv.eng.tags <= {'C12'} and not over_map(lv) else None)
    R.cands.append(cands)
    R.externs['sort.Strings'] = Ext(sort_strings, {('E', 'string', '')})
    if R.prog.fns.get('format.sortStringSet') is not None:
        sorted_set(R)
    entries(R)
    sources(R)
    for n in map_loops(R.prog):
        g = R.prog.fns[n]
        old = R.contracts.get(n)
        if old is not None and (old.only_tags is None or 'C12' in old.only_tags):
            continue
        c = R.fn(n, *[q['n'] for q in g.params]).tags_only('C12')
        c.raises('*')
        for gl, mt in DEFAULTS:
            c.ens('C12', 'one run leaves the next %s as it was' % gl, lambda v, gl=gl, mt=mt: same_map(v, gl, mt))
