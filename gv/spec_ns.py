"""Contracts of the enforcement of ns style (C10)."""
import z3
from terms import *
from contracts import *
from engine import Slice, SView
from spec_style import isT, NODES_T, place, index
from spec_layout import T_, E_KEY, nodes_of, tree_ok, in_tree

ROW = z3.ArraySort(Int, Int)
member = fn('one_of', ROW, Int, Int, Int, Bool)         # row, first, number, node
place_of = fn('place_of', ROW, Int, Int, Int, Int)
REQ = ('require', 'require-macros')
MULTI = REQ + ('use', 'import', 'load', 'gen-class')
CLAUSES = MULTI + ('refer-clojure',)


def fa(vs, f, *p):
    return z3.ForAll(vs, f, patterns=[p[0] if len(p) == 1 else z3.MultiPattern(*p)])


def fas(vs, f, ps):
    return z3.ForAll(vs, f, patterns=list(ps))


def is_member(eng, row, off, ln, n):
    """n is one of the elements off.. of the row, by definition."""
    row = eng.named(row)
    d = eng.__dict__.setdefault('member_facts', {})
    k = (row.get_id(), off.get_id(), ln.get_id())
    got = d.get(k)
    if got is None or got[0] >= len(eng.facts) or not eng.facts[got[0]].eq(got[1]):
        x, m = z3.Ints('x!m m!m')
        e = z3.Select(row, x)
        a, p = member(row, off, ln, m), place_of(row, off, ln, m)
        f = And(fa([x], Implies(And(off <= x, x < off + ln), member(row, off, ln, e)), e),
                fa([m], Implies(a, And(off <= p, p < off + ln, z3.Select(row, p) == m)), a))
        eng.fact(f)
        d[k] = (len(eng.facts) - 1, eng.facts[-1], row, off, ln)
    return member(row, off, ln, n)


class Heap:
    """The elements of nodes in a state."""

    def __init__(self, v):
        self.v, self.eng = v, v.eng
        self.arr, self.off, self.len, self.cap = nodes_of(v)
        self.E = v.eng.named(v.H(E_KEY))
        self.own = v.eng.named(v.gh('own'))
        self.nxt = v.nxt

    def slice(self, n):
        return [z3.Select(m, n) for m in (self.arr, self.off, self.len, self.cap)]

    def row(self, n):
        return z3.Select(self.E, z3.Select(self.arr, n))

    def val(self, n, t):
        return self.eng.load_key(self.v.st, ('F', 'Val', 'string'), 'string', n)


def types(v):
    return lambda n, *ts: Or(*[isT(v, n, t + 'Node') for t in ts])


def fresh(p, h, x):
    return And(p.nxt <= x, x < h.nxt)


def same_slice(p, h, e, e1):
    """e1 holds what e held."""
    return And(*[a == b for a, b in zip(h.slice(e1)[:3], p.slice(e)[:3])])


def require_elem(p, h, e, e1):
    t = types(h.v)
    a, o, l, c = h.slice(e1)
    return And(Implies(t(e, 'Vector'), And(e1 == e, same_slice(p, h, e, e))),
               Implies(t(e, 'List'), And(t(e1, 'Vector'), fresh(p, h, e1), same_slice(p, h, e, e1))),
               Implies(t(e, 'Symbol'), And(t(e1, 'Vector'), fresh(p, h, e1), fresh(p, h, a), l == 1, z3.Select(z3.Select(h.E, a), o) == e)),
               Implies(Not(t(e, 'Vector', 'List', 'Symbol')), e1 == e))


def require_sub(p, h, c, c1):
    """An element of a required list or vector."""
    t = types(h.v)
    return z3.If(t(c, 'List'), And(t(c1, 'Vector'), fresh(p, h, c1), same_slice(p, h, c, c1)), c1 == c)


def import_symbol(p, h, e, e1, part):
    """A part of what becomes of an imported symbol."""
    t = types(h.v)
    a, o, l, c = h.slice(e1)
    val = p.val(e, 'Symbol')
    j = S.lastindex(val, S.lit('.'))
    x = z3.Select(z3.Select(h.E, a), o + (part or 0))
    if part is None:
        return z3.If(j >= 0, And(t(e1, 'List'), fresh(p, h, e1), fresh(p, h, a), l == 2), e1 == e)
    return Implies(j >= 0, And(t(x, 'Symbol'), fresh(p, h, x), h.val(x, 'Symbol') == (S.sub(val, j + 1, S.len(val)) if part else S.sub(val, I(0), j))))


def import_elem(p, h, e, e1):
    t = types(h.v)
    a, o, l, c = h.slice(e1)
    val = p.val(e, 'Symbol')
    j = S.lastindex(val, S.lit('.'))
    x, y = [z3.Select(z3.Select(h.E, a), o + i) for i in (0, 1)]
    split = And(t(e1, 'List'), fresh(p, h, e1), fresh(p, h, a), l == 2, *[And(t(z, 'Symbol'), fresh(p, h, z)) for z in (x, y)],
                h.val(x, 'Symbol') == S.sub(val, I(0), j), h.val(y, 'Symbol') == S.sub(val, j + 1, S.len(val)))
    return And(Implies(t(e, 'Vector'), And(t(e1, 'List'), fresh(p, h, e1), same_slice(p, h, e, e1))),
               Implies(t(e, 'Symbol'), z3.If(j >= 0, split, e1 == e)),
               Implies(Not(t(e, 'Vector', 'Symbol')), e1 == e))


def ns_module(R):
    prog = R.prog

    def old_nodes(p, h):
        """Nodes that exist keep their elements."""
        x = z3.Int('x!on')
        return fas([x], Implies(And(0 <= x, x < p.nxt), And(*[a == b for a, b in zip(h.slice(x), p.slice(x))])), h.slice(x))

    # ---- the elements of one clause
    def clause_fn(nm, elem, sub, what):
        g = prog.fns.get('format.' + nm)
        if g is None:
            return
        p0 = g.params[0]['n']
        c = R.fn('format.' + nm, p0).tags_only('C10')
        c.raises('*')
        c.frame('E.parse.Node')

        def rng(v):
            s = v.a(p0)
            return [v.eng.named(z3.simplify(x)) for x in (s.arr, s.off, s.len)]

        def distinct(v):
            arr, off, ln = rng(v)
            row = v.eng.named(z3.Select(Heap(v).E, arr))
            x = z3.Int('x!d')
            e = z3.Select(row, x)
            is_member(v.eng, row, off, ln, e)
            return fa([x], Implies(And(off <= x, x < off + ln, types(v)(e, 'List', 'Vector')), place_of(row, off, ln, e) == x), e)

        def nodes(v):
            arr, off, ln = rng(v)
            h, t = Heap(v), types(v)
            x = z3.Int('x!n')
            e = z3.Select(v.eng.named(z3.Select(h.E, arr)), x)
            a, o, l, cp = h.slice(e)
            return fa([x], Implies(And(off <= x, x < off + ln), And(e != 0, v.eng.is_node(e), Or(t(e, 'Newline'), And(e > 0, e < v.nxt)), Implies(t(e, 'List', 'Vector'), And(
                0 <= a, a < v.nxt, a != arr, o >= 0, l >= 0, l <= cp, Implies(a == 0, cp == 0), Implies(a != 0, z3.Select(h.own, a) == e))))), e)
        c.req('C10', 'the elements are nodes with arrays of their own', nodes)
        def below(v):
            arr, off, ln = rng(v)
            h, t = Heap(v), types(v)
            x, y = z3.Ints('x!b y!b')
            e = z3.Select(v.eng.named(z3.Select(h.E, arr)), x)
            a, o, l, cp = h.slice(e)
            c0 = z3.Select(z3.Select(h.E, a), y)
            return fa([x, y], Implies(And(off <= x, x < off + ln, t(e, 'List', 'Vector'), o <= y, y < o + l), And(c0 != 0, v.eng.is_node(c0), Or(types(v)(c0, 'Newline'), And(c0 > 0, c0 < v.nxt)))), e, c0)
        if sub is require_sub:
            c.req('C10', 'elements of lists and vectors are nodes', below)
        c.req('C10', 'no list or vector is an element twice', distinct)

        def elems(v, p=None, upto=None, frm=None):
            p = p or v.pre
            arr, off, ln = rng(p)
            ph, h = Heap(p), Heap(v)
            x = z3.Int('x!e')
            e, e1 = z3.Select(v.eng.named(z3.Select(ph.E, arr)), x), z3.Select(v.eng.named(z3.Select(h.E, arr)), x)
            hi = off + (ln if upto is None else upto)
            return fa([x], Implies(And(off <= x, x < hi), elem(ph, h, e, e1)), e1)

        def subs(v, p=None, upto=None):
            p = p or v.pre
            arr, off, ln = rng(p)
            ph, h, t = Heap(p), Heap(v), types(v)
            x, y = z3.Ints('x!s y!s')
            e = z3.Select(v.eng.named(z3.Select(ph.E, arr)), x)
            a, o, l, cp = ph.slice(e)
            c0, c1 = z3.Select(z3.Select(ph.E, a), y), z3.Select(z3.Select(h.E, a), y)
            hi = off + (ln if upto is None else upto)
            return fa([x, y], Implies(And(off <= x, x < hi, t(e, 'List', 'Vector'), o <= y, y < o + l), sub(ph, h, c0, c1)), e, c1)

        def rows(v, p=None, upto=None):
            p = p or v.pre
            arr, off, ln = rng(p)
            ph, h, t = Heap(p), Heap(v), types(v)
            row = v.eng.named(z3.Select(ph.E, arr))
            q = z3.Int('q!r')
            own = z3.Select(ph.own, q)
            at = place_of(row, off, ln, own)
            one = And(is_member(v.eng, row, off, ln, own), t(own, 'List', 'Vector'), T if upto is None else at < off + upto) if sub is require_sub else F
            return fa([q], Implies(And(0 < q, q < ph.nxt), Or(z3.Select(h.E, q) == z3.Select(ph.E, q), q == arr, one)), z3.Select(h.E, q))
        c.ens('C10', 'every element is the one it was or %s' % what, elems)
        if sub is require_sub:
            c.ens('C10', 'elements of required lists and vectors are those they were, lists as vectors', subs)
        c.ens('C10', 'nothing else changes', rows)
        c.ens('C10', 'nodes keep their elements', lambda v: old_nodes(Heap(v.pre), Heap(v)))

        def cands(lv):
            top, eng = lv.eng.top, lv.eng
            if top.con.name != 'format.' + nm:
                return []
            out = [('nodes that exist keep their elements', lambda v: old_nodes(Heap(top), Heap(v.sv())))]
            arr, off, ln = rng(top)
            inner = False
            for r, ty in sorted(regs_used(lv).items()):
                s = lv.pre.env.get((lv.fr.depth, r))
                if not isinstance(s, Slice) or ty != NODES_T or s.arr.eq(arr):
                    continue
                inner = True
                e0 = Heap(lv.pre_sv() if hasattr(lv, 'pre_sv') else SView(eng, lv.pre, top.con, top.args))

                def other(v, s=s, e0=e0):
                    q, h = z3.Int('q!o'), Heap(v.sv())
                    return fa([q], Implies(And(0 < q, q < e0.nxt, q != s.arr), z3.Select(h.E, q) == z3.Select(e0.E, q)), z3.Select(h.E, q))
                out.append(('other arrays stay', other))
                for ref, first in counters(lv):
                    k = lambda v, ref=ref, d=1 if ival(first) == -1 else 0: v.get(ref) + d

                    def those(v, s=s, e0=e0, k=k):
                        h, y = Heap(v.sv()), z3.Int('y!i')
                        r0, r1 = eng.named(z3.Select(e0.E, s.arr)), eng.named(z3.Select(h.E, s.arr))
                        c0, c1 = z3.Select(r0, y), z3.Select(r1, y)
                        return fa([y], Implies(And(s.off <= y, y < s.off + s.len), z3.If(y < s.off + k(v), sub(e0, h, c0, c1), c1 == c0)), c1)
                    out.append(('the first elements are done', those))
            if inner:
                return out
            for ref, first in counters(lv):
                k = lambda v, ref=ref, d=1 if ival(first) == -1 else 0: v.get(ref) + d
                wrt = lambda v: SView(eng, v.st, top.con, top.args, pre=top)
                out.append(('elements done', lambda v, k=k: elems(wrt(v), top, k(v))))
                if sub is require_sub:
                    out.append(('elements of elements done', lambda v, k=k: subs(wrt(v), top, k(v))))
                out.append(('other rows', lambda v, k=k: rows(wrt(v), top, k(v))))

                def rest(v, k=k):
                    x = z3.Int('x!r')
                    a, b = [z3.Select(eng.named(z3.Select(h.E, arr)), x) for h in (Heap(v.sv()), Heap(top))]
                    return fa([x], Implies(And(off + k(v) <= x, x < off + ln), a == b), a)
                out.append(('the rest is as it was', rest))
            return out
        c.cand(cands)
    clause_fn('enforceRequireStyle', require_elem, require_sub, 'a vector of it or of what it held')
    clause_fn('enforceImportStyle', import_elem, None, 'a list of what it held or of its parts')

    # ---- the whole form
    g = prog.fns.get('format.enforceNSStyle')
    if g is None:
        return
    p0 = g.params[0]['n']
    c = R.fn('format.enforceNSStyle', p0).tags_only('C10')
    c.raises('*')
    c.frame('E.parse.Node', 'F.Nodes', 'F.parent')
    c.ghost_mods = {('gh', 'own')}
    me = lambda v: v.a(p0)
    for i in (0, 2, 3, 4):
        nm_ = ['elements are nodes of the tree', '', 'every node has its own array', 'arrays that do not exist belong to no node', 'nodes of the tree exist'][i]
        c.req('C10', nm_, lambda v, i=i: tree_ok(v)[i][1])
    c.req('C10', 'the form is a list of the tree', lambda v: And(z3.Select(T_, me(v)), isT(v, me(v), 'ListNode'), place(me(v)) != me(v)))

    def places(v):
        n, j = z3.Ints('n!p j!p')
        arr, off, ln, cap = [z3.Select(x, n) for x in nodes_of(v)]
        e = z3.Select(z3.Select(v.eng.named(v.H(E_KEY)), arr), j)
        return fa([n, j], Implies(And(z3.Select(T_, n), v.eng.in_group(n, 'cont'), off <= j, j < off + ln, Not(isT(v, e, 'NewlineNode'))),
                                  And(place(e) == n, index(e) == j - off)), z3.Select(T_, n), e)
    c.req('C10', 'every node is in one place', places)

    # what a node is as a clause, when the function starts
    cname = fn('clause_name', Int, Str)
    preds = {k: fn('clause_' + k, Int, Bool) for k in ('done', 'req', 'imp', 'breaks', 'sym')}

    def define(v):
        h, t, x = Heap(v), types(v), z3.Int('x!cd')
        a0, o0, l0, _ = h.slice(me(v))
        n = z3.Select(v.eng.named(z3.Select(h.E, a0)), x)
        a, o, l, _ = h.slice(n)
        f, second = [z3.Select(z3.Select(h.E, a), o + i) for i in (0, 1)]
        kv, sv = h.val(f, 'Keyword'), h.val(f, 'Symbol')
        sym = t(f, 'Symbol')
        ok = And(t(n, 'List', 'Vector'), l >= 1, t(f, 'Symbol', 'Keyword'))
        one_of = lambda names: And(ok, Or(*[cname(n) == S.lit(x) for x in names]))
        P = {k: p(n) for k, p in preds.items()}
        return fa([x], Implies(And(o0 <= x, x < o0 + l0), And(
            cname(n) == z3.If(sym, sv, S.sub(kv, I(1), S.len(kv))), P['sym'] == sym, P['done'] == one_of(CLAUSES), P['req'] == one_of(REQ), P['imp'] == one_of(('import',)),
            P['breaks'] == And(one_of(MULTI), l >= 2, Not(t(second, 'Newline', 'Comment', 'Metadata', 'Tag'))))), n)
    c.axiom('C10', 'names for what clauses are', define)

    class Clause:
        """What a child of the form is, in the state p."""

        def __init__(self, p, e):
            self.h, self.e = Heap(p), e
            t = types(p)
            self.a, self.o, self.l, self.c = self.h.slice(e)
            self.f = z3.Select(z3.Select(self.h.E, self.a), self.o)
            self.vec, self.name = t(e, 'Vector'), cname(e)
            for k, p in preds.items():
                setattr(self, k, p(e))
            self.ins = z3.If(self.breaks, I(1), I(0))

        def elem(self, i):
            return z3.Select(z3.Select(self.h.E, self.a), i)

    def mine(p):
        """The children of the form."""
        h = Heap(p)
        a, o, l, _ = h.slice(me(p))
        return h, a, o, l, p.eng.named(z3.Select(h.E, a))

    def span(v, o, k, x):
        """The children k stands for: all before the k-th, those but the last, the last."""
        if not isinstance(k, tuple):
            return And(o < x, x < o + k), True, x
        if k[0] == 'old':
            return And(o < x, x < o + k[1] - 1), True, x
        x = v.eng.named(o + k[1] - 1)
        return x > o, False, x

    def each(v, p, k, body, with_elems=False):
        """body for every child before the k-th but the first (and every element of it but the first)."""
        h, a, o, l, row = mine(p)
        x, y = z3.Ints('x!ns y!ns')
        rng, bound, x = span(v, o, k, x)
        e = z3.Select(row, x)
        e1 = z3.Select(v.eng.named(z3.Select(Heap(v).E, a)), x)
        cl = Clause(p, e)
        if not with_elems:
            f = Implies(rng, body(cl, e, e1))
            return fas([x], f, (e, e1)) if bound else f
        d = cl.elem(y)
        f = Implies(And(rng, cl.done, cl.o < y, y < cl.o + cl.l), body(cl, e, e1, d, y))
        return fa([x, y], f, e, d) if bound else fa([y], f, d)

    def kept(v, p, k):
        t, h = types(v), Heap(v)
        return each(v, p, k, lambda cl, e, e1: z3.If(And(cl.done, cl.vec), And(t(e1, 'List'), fresh(p, h, e1)), e1 == e))

    def heads(v, p, k):
        t, h = types(v), Heap(v)

        def body(cl, e, e1):
            a, o, l, _ = h.slice(e1)
            f = z3.Select(z3.Select(h.E, a), o)
            return Implies(cl.done, And(l == cl.l + cl.ins, z3.If(cl.sym, And(t(f, 'Keyword'), fresh(p, h, f), h.val(f, 'Keyword') == S.cat(S.lit(':'), cl.name)), f == cl.f),
                                        Implies(cl.breaks, t(z3.Select(z3.Select(h.E, a), o + 1), 'Newline'))))
        return each(v, p, k, body)

    def elems(which):
        def f(v, p, k):
            h, ph = Heap(v), Heap(p)

            def body(cl, e, e1, d, y):
                a, o, l, _ = h.slice(e1)
                d1 = z3.Select(z3.Select(h.E, a), o + (y - cl.o) + cl.ins)
                return {'req': lambda: Implies(And(cl.req, Not(types(v)(d, 'Symbol'))), require_elem(ph, h, d, d1)), 'reqs': lambda: Implies(And(cl.req, types(v)(d, 'Symbol')), require_elem(ph, h, d, d1)), 'imp': lambda: Implies(And(cl.imp, Not(types(v)(d, 'Symbol'))), import_elem(ph, h, d, d1)), **{'imps%s' % q: lambda q=q: Implies(And(cl.imp, types(v)(d, 'Symbol')), import_symbol(ph, h, d, d1, q)) for q in (None, 0, 1)},
                        'rest': lambda: Implies(Not(Or(cl.req, cl.imp)), d1 == d)}[which]()
            return each(v, p, k, body, True)
        return f

    def subs(v, p, k):
        h, ph, t = Heap(v), Heap(p), types(v)
        _, a, o, l, row = mine(p)
        x, y, z = z3.Ints('x!ns y!ns z!ns')
        rng, bound, x = span(v, o, k, x)
        e = z3.Select(row, x)
        cl = Clause(p, e)
        d = cl.elem(y)
        da, do, dl, _ = ph.slice(d)
        c0, c1 = z3.Select(z3.Select(ph.E, da), z), z3.Select(z3.Select(h.E, da), z)
        a1, o1, l1, _ = h.slice(z3.Select(v.eng.named(z3.Select(h.E, a)), x))
        d1 = z3.Select(z3.Select(h.E, a1), o1 + (y - cl.o) + cl.ins)
        f = Implies(And(rng, cl.req, cl.o < y, y < cl.o + cl.l, t(d, 'List', 'Vector'), do <= z, z < do + dl),
                                      And(require_sub(ph, h, c0, c1), z3.If(t(d, 'Vector'), d1 == d, t(d1, 'Vector'))))
        return fa([x, y, z], f, e, d, c0) if bound else fa([y, z], f, d, c0)

    def done(p, m, k):
        """m is one of the rewritten children before the k-th."""
        return And(place(m) == me(p), index(m) >= 1, index(m) < k, z3.Select(T_, m), Clause(p, m).done)

    def lists(v, p, k):
        h, ph = Heap(v), Heap(p)
        x = z3.Int('x!nl')
        return fas([x], Implies(And(0 <= x, x < p.nxt, x != me(p)), Or(done(p, x, k), And(*[a == b for a, b in zip(h.slice(x), ph.slice(x))]))), h.slice(x))

    def rows(v, p, k):
        h, ph, t = Heap(v), Heap(p), types(v)
        q = z3.Int('q!nr')
        m = z3.Select(ph.own, q)
        up = place(m)
        return fa([q], Implies(And(0 < q, q < p.nxt), Or(z3.Select(h.E, q) == z3.Select(ph.E, q), m == me(p), done(p, m, k),
                                                        And(done(p, up, k), Clause(p, up).req, t(m, 'List', 'Vector')))), z3.Select(h.E, q))

    def own(v, p, k):
        h, ph = Heap(v), Heap(p)
        q = z3.Int('q!no')
        o0, o1 = z3.Select(ph.own, q), z3.Select(h.own, q)
        return fa([q], And(Implies(And(0 < q, q < p.nxt), o1 == o0), Implies(q >= p.nxt, Or(o1 == 0, And(done(p, o1, k), q < v.nxt)))), o1)

    def theirs(v, p, k):
        h = Heap(v)

        def body(cl, e, e1):
            a = h.slice(e1)[0]
            return Implies(cl.done, And(0 < a, a < v.nxt, z3.Select(h.own, a) == e))
        return each(v, p, k, body)

    def later(v, p, k):
        h, ph = Heap(v), Heap(p)
        _, a, o, l, row = mine(p)
        x = z3.Int('x!nt')
        e = z3.Select(row, x)
        return fa([x], Implies(And(o + k <= x, x < o + l, x > o, v.eng.in_group(e, 'cont')), And(
            *[q == b for q, b in zip(h.slice(e), ph.slice(e))], Implies(h.slice(e)[0] != 0, z3.Select(h.E, h.slice(e)[0]) == z3.Select(ph.E, h.slice(e)[0])))), e)

    def later_elems(v, p, k):
        h, ph = Heap(v), Heap(p)
        _, a, o, l, row = mine(p)
        x, y = z3.Ints('x!nt y!nt')
        e = z3.Select(row, x)
        cl = Clause(p, e)
        d = cl.elem(y)
        return fa([x, y], Implies(And(o + k <= x, x < o + l, x > o, v.eng.in_group(e, 'cont'), cl.o <= y, y < cl.o + cl.l, v.eng.in_group(d, 'cont')), And(
            *[q == b for q, b in zip(h.slice(d), ph.slice(d))], Implies(h.slice(d)[0] != 0, z3.Select(h.E, h.slice(d)[0]) == z3.Select(ph.E, h.slice(d)[0])))), e, d)
    HARD = (elems('req'), elems('imp'), subs, elems('impsNone'), elems('reqs'), elems('imps0'), elems('imps1'), elems('rest'), heads)
    PARTS = [('every child is the one it was, rewritten clauses are lists', kept), ('the head becomes the keyword of the same name', heads),
             ('what is required, but symbols, is as it was or in the documented form', HARD[0]), ('required symbols are in the documented form', HARD[4]), ('what is imported, but symbols, is as it was or in the documented form', HARD[1]), ('imported symbols are as they were or lists of two', HARD[3]), ('the first is the part before the last dot', HARD[5]),
             ('the second is the part after the last dot', HARD[6]),
             ('the elements of other clauses are as they were', HARD[7]),
             ('what required lists and vectors hold', subs), ('other nodes keep their elements', lists), ('nothing else changes', rows)]
    num = lambda p: mine(p)[3]
    for nm_, f in PARTS:
        c.ens('C10', nm_, lambda v, f=f: f(v, v.pre, num(v.pre)))

    def shape(v, p):
        h, ph = Heap(v), Heap(p)
        a, o, l, row = mine(p)[1:]
        return And(*[x == y for x, y in zip(h.slice(me(p))[:3], (a, o, l))], Implies(l > 0, z3.Select(z3.Select(h.E, a), o) == z3.Select(row, o)))
    c.ens('C10', 'the form keeps its head and its number of children', lambda v: shape(v, v.pre))

    def cands(lv):
        top, eng = lv.eng.top, lv.eng
        if top.con.name != 'format.enforceNSStyle':
            return []
        out = []
        wrt = lambda v: SView(eng, v.st, top.con, top.args, pre=top)
        for ref, first in counters(lv):
            d = 1 if ival(first) == -1 else 0
            k = lambda v, ref=ref, d=d: v.get(ref) + d
            for nm_, f in PARTS + [('arrays', own), ('arrays of clauses', theirs), ('later clauses', later), ('elements of later clauses', later_elems)]:
                if f in HARD:
                    for w in ('old', 'last'):
                        out.append(('%s (%s)' % (nm_, w), lambda v, f=f, k=k, w=w: f(wrt(v), top, (w, k(v)))))
                else:
                    out.append((nm_, lambda v, f=f, k=k: f(wrt(v), top, k(v))))

            out.append(('no further than the last', lambda v, k=k: Or(k(v) <= num(top), k(v) == 1)))

            def rest(v, k=k):
                x = z3.Int('x!nr')
                h, a, o, l, row = mine(top)
                e = z3.Select(eng.named(z3.Select(Heap(v.sv()).E, a)), x)
                return fa([x], Implies(And(o <= x, x < o + l, Or(x == o, x >= o + k(v))), e == z3.Select(row, x)), e)
            out.append(('the rest is as it was', rest))
        out.append(('the form keeps its elements', lambda v: And(*[x == y for x, y in zip(Heap(v.sv()).slice(me(top)), Heap(top).slice(me(top)))])))
        return out
    c.work, c.cores, c.split = 3, True, [preds['breaks'], preds['sym']]
    c.cand(cands)
