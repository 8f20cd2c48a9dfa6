"""Contracts of the configuration of cljfmt (C15)."""
import z3
from terms import *
from contracts import *
from engine import Slice, StructV, SView

NODES_T = '[]parse.Node'
VAL = ('F', 'Val', 'string', '')
MSET = 'map[string]struct{}'
MSS = 'map[string]string'
MI = 'map[string]format.IndentStyle'
MF = 'map[string]format.ThreadFirstStyle'
ROW = z3.ArraySort(Int, Int)
KEYS = (':extensions', ':indent-overrides', ':thread-first-overrides')
TABLES = {':indent-overrides': ('indentOverrides', MI, 'cljfmt.indentStyles'),
          ':thread-first-overrides': ('threadFirstOverrides', MF, 'cljfmt.threadFirstStyles')}

# README: the style keywords
STYLES = {':normal': 'IndentNormal', ':list': 'IndentList', ':list-body': 'IndentListBody', ':let': 'IndentLet', ':letfn': 'IndentLetfn',
          ':for': 'IndentFor', ':deftype': 'IndentDeftype', ':cond0': 'IndentCond0', ':cond1': 'IndentCond1', ':cond2': 'IndentCond2',
          ':cond4': 'IndentCond4'}
THREAD = {':normal': 'ThreadFirstNormal', ':cond->': 'ThreadFirstCondArrow'}
FLAGS = {'sort-import-require': 'TransformSortImportRequire', 'enforce-ns-style': 'TransformEnforceNSStyle',
         'remove-trailing-newlines': 'TransformRemoveTrailingNewlines', 'fix-defn-arglist-newline': 'TransformFixDefnArglistNewline',
         'fix-defmethod-dispatch-val-newline': 'TransformFixDefmethodDispatchValNewline',
         'remove-extra-blank-lines': 'TransformRemoveExtraBlankLines', 'fix-if-newline-consistency': 'TransformFixIfNewlineConsistency',
         'use-to-require': 'TransformUseToRequire', 'remove-unused-requires': 'TransformRemoveUnusedRequires'}

# Functions of the text of the configuration (nodes are not changed while it is read; their
# values and child slices are arguments, so a change would be noticed).
HS = [z3.ArraySort(Int, Str)] + [z3.ArraySort(Int, Int)] * 3
in_first = fn('named_in_first', *HS, Int, Int, Str, Bool)    # node, k, s: s is among the first k names of the node
last_pair = fn('last_pair', *HS, Int, Int, Int, Str, Int)    # array, offset, i, s: last pair before i naming s, or -1
pair_ok = fn('pair_ok', *HS, Int, Int, Int, Bool)            # array, offset, i: the pair at i is well formed
pairs_ok = fn('pairs_ok', *HS, Int, Int, Int, Bool)          # array, offset, length
last_key = fn('last_key', *HS, Int, Int, Int, Str, Int)      # array, offset, i, key: last entry before i with that key, or -1
entry_ok = fn('entry_ok', *HS, Int, Int, Int, Bool)


def hp(v):
    return [v.eng.named(v.H(VAL))] + [v.eng.named(v.H(('F', 'Nodes', NODES_T, pt))) for pt in ('arr', 'off', 'len')]


def isT(v, n, ty):
    return v.eng.is_type(n, 'parse.' + ty)


def val_of(v, n):
    return z3.Select(v.H(VAL), n)


def kids(v, n):
    return v.eng.load_key(v.st, ('F', 'Nodes', NODES_T), NODES_T, n)


def elem(v, arr, j):
    return z3.Select(v.row('parse.Node', arr), j)


def nsl(v, s):
    return Slice(*[v.eng.named(x) for x in (s.arr, s.off, s.len, s.cap)], s.elem)


def nm_(v, x):
    x = z3.simplify(x)
    return x if z3.is_int_value(x) else v.eng.named(x)


def is_seq(v, n):
    return Or(isT(v, n, 'ListNode'), isT(v, n, 'VectorNode'))


def name_count(v, n):
    return z3.If(is_seq(v, n), kids(v, n).len, I(1))


def name_at(v, n, k):
    s = kids(v, n)
    return z3.If(is_seq(v, n), val_of(v, elem(v, s.arr, s.off + k)), val_of(v, n))


def named_in(v, n, k):
    """s -> whether s is among the first k names of n, with the facts about k."""
    h = hp(v)
    s = z3.Const('s!n', Str)
    n, k0, k = nm_(v, n), nm_(v, k - 1), nm_(v, k)
    t = in_first(*h, n, k, s)
    nm = v.eng.named(name_at(v, n, k0))
    v.eng.fact(z3.ForAll([s], t == And(k > 0, Or(in_first(*h, n, k0, s), nm == s)), patterns=[t]))
    return lambda s: in_first(*h, n, k, s)


def pair_names(v, n):
    return named_in(v, n, v.eng.named(name_count(v, n)))


def inside(v):
    """Overrides are taken apart in parseOverrides; elsewhere their meaning is a name."""
    return v.eng.top.con.name == 'cljfmt.parseOverrides'


def last_of(v, arr, off, i):
    h = hp(v)
    if not inside(v):
        arr, off, i = nm_(v, arr), nm_(v, off), nm_(v, i)
        return lambda s: last_pair(*h, arr, off, i, s)
    s = z3.Const('s!l', Str)
    arr, off = nm_(v, arr), nm_(v, off)
    e = v.eng.named(elem(v, arr, off + i - 2))
    i2, i = nm_(v, i - 2), nm_(v, i)
    t = last_pair(*h, arr, off, i, s)
    nm = pair_names(v, e)
    v.eng.fact(z3.ForAll([s], And(Implies(i <= 0, t == -1), Implies(i >= 2, t == z3.If(
        nm(s), i - 2, last_pair(*h, arr, off, i2, s)))), patterns=[t]))
    return lambda s: last_pair(*h, arr, off, i, s)


def ok_pair(v, arr, off, i):
    h = hp(v)
    arr, off, i = nm_(v, arr), nm_(v, off), nm_(v, i)
    t = pair_ok(*h, arr, off, i)
    e = v.eng.named(elem(v, arr, off + i))
    f = elem(v, arr, off + i + 1)
    s = kids(v, e)
    row = v.eng.named(v.row('parse.Node', s.arr))
    lo, hi = v.eng.named(s.off), v.eng.named(s.off + s.len)
    j = z3.Int('j!o')
    all_str = v.eng.named(z3.ForAll([j], Implies(And(lo <= j, j < hi), isT(v, z3.Select(row, j), 'StringNode')), patterns=[z3.Select(row, j)]))
    v.eng.fact(t == And(isT(v, f, 'KeywordNode'), z3.If(is_seq(v, e), all_str, isT(v, e, 'StringNode'))))
    return t


def ok_pairs(v, arr, off, ln):
    h = hp(v)
    arr, off, ln = nm_(v, arr), nm_(v, off), nm_(v, ln)
    t = pairs_ok(*h, arr, off, ln)
    if not inside(v):
        return t
    i = z3.Int('i!o')
    p = pair_ok(*h, arr, off, i)
    v.eng.fact(t == And(ln % 2 == 0, z3.ForAll([i], Implies(And(0 <= i, i < ln, i % 2 == 0), p), patterns=[p])))
    return t


def overrides_are(v, m, arr, off, i, also=None):
    """Map m holds what the first i elements say; also = (names, value) of a pair that is being added."""
    s = z3.Const('s!m', Str)
    d, w = v.eng.named(v.dom(MSS, m)), v.eng.named(z3.Select(v.H(('MV', MSS, '')), m))
    lp = last_of(v, arr, off, i)
    row, val = v.eng.named(v.row('parse.Node', arr)), v.eng.named(v.H(VAL))
    old = z3.Select(val, z3.Select(row, off + lp(s) + 1))
    if also is None:
        dd, ww = lp(s) >= 0, old
    else:
        dd, ww = Or(lp(s) >= 0, also[0](s)), z3.If(also[0](s), also[1], old)
    return z3.ForAll([s], And(z3.Select(d, s) == dd, Implies(dd, z3.Select(w, s) == ww)),
                     patterns=[z3.Select(d, s), z3.Select(w, s)] + ([] if inside(v) else [lp(s)]))


def last_entry(v, arr, off, i, key):
    h = hp(v)
    arr, off, i2, i = nm_(v, arr), nm_(v, off), nm_(v, i - 2), nm_(v, i)
    k = S.lit(key)
    t = last_key(*h, arr, off, i, k)
    e = elem(v, arr, off + i - 2)
    v.eng.fact(And(Implies(i <= 0, t == -1), Implies(i >= 2, t == z3.If(
        And(isT(v, e, 'KeywordNode'), val_of(v, e) == k), i - 2, last_key(*h, arr, off, i2, k)))))
    return t


def styles_known(v, s, key):
    """Every style in effect in the override list s is one the table knows."""
    f, mt, g = TABLES[key]
    x = z3.Const('s!k', Str)
    lp = last_of(v, s.arr, s.off, s.len)
    row, val = v.eng.named(v.row('parse.Node', s.arr)), v.eng.named(v.H(VAL))
    dom = v.eng.named(v.dom(mt, v.eng.glob_ref(g)))
    return z3.ForAll([x], Implies(lp(x) >= 0, z3.Select(dom, z3.Select(val, z3.Select(row, s.off + lp(x) + 1)))), patterns=[lp(x)])


def setting(v, key, s, c):
    """The field of c for key holds what the sequence s says."""
    if key == ':extensions':
        m = v.F(c, 'cljfmt.config', 'extensions')
        x = z3.Const('s!e', Str)
        d = v.eng.named(v.dom(MSET, m))
        nm = lambda x: in_first(*hp(v), s[1], s[0].len, x)
        return And(m != 0, z3.ForAll([x], z3.Select(d, x) == nm(x), patterns=[z3.Select(d, x)]))
    f, mt, g = TABLES[key]
    s = s[0]
    m = v.F(c, 'cljfmt.config', f)
    x = z3.Const('s!f', Str)
    d, w = v.eng.named(v.dom(mt, m)), v.eng.named(z3.Select(v.H(('MV', mt, '')), m))
    lp = lambda x: last_pair(*hp(v), s.arr, s.off, s.len, x)
    row, val = v.eng.named(v.row('parse.Node', s.arr)), v.eng.named(v.H(VAL))
    tw = v.eng.named(z3.Select(v.H(('MV', mt, '')), v.eng.glob_ref(g)))
    return And(m != 0, z3.ForAll([x], And(z3.Select(d, x) == (lp(x) >= 0), Implies(lp(x) >= 0, z3.Select(w, x) == z3.Select(
        tw, z3.Select(val, z3.Select(row, s.off + lp(x) + 1))))), patterns=[z3.Select(d, x), z3.Select(w, x)]))


def ok_entry(v, arr, off, i):
    h = hp(v)
    arr, off, i = nm_(v, arr), nm_(v, off), nm_(v, i)
    t = entry_ok(*h, arr, off, i)
    e, f = v.eng.named(elem(v, arr, off + i)), v.eng.named(elem(v, arr, off + i + 1))
    s = kids(v, f)
    s = nsl(v, s)
    row = v.eng.named(v.row('parse.Node', s.arr))
    j = z3.Int('j!e')
    strs = z3.ForAll([j], Implies(And(s.off <= j, j < s.off + s.len), isT(v, z3.Select(row, j), 'StringNode')), patterns=[z3.Select(row, j)])
    prs = ok_pairs(v, s.arr, s.off, s.len)
    k = lambda x: val_of(v, e) == S.lit(x)
    v.eng.fact(t == Or(Not(isT(v, e, 'KeywordNode')),
                       And(is_seq(v, f), Or(And(k(':extensions'), v.eng.named(strs)),
                                            And(k(':indent-overrides'), prs, v.eng.named(styles_known(v, s, ':indent-overrides'))),
                                            And(k(':thread-first-overrides'), prs, v.eng.named(styles_known(v, s, ':thread-first-overrides')))))))
    return t


def conf_module(R):
    c = R.fn('parse.Reader', 'r', 'filename', 'opts').tags_only('C15', 'C14')
    c.ens('C15', 'a tree or an error', lambda v: (v.rets[0] != 0) == (v.rets[1] == 0), trusted=True)
    c.ens('C15', 'the result is new', lambda v: Implies(v.rets[0] != 0, And(v.rets[0] >= v.pre.nxt, v.rets[0] < v.nxt)), trusted=True)
    c.ghost_mods = {('gh', 'conf_tree')}
    c.ens('C15', 'names the tree', lambda v: v.gh('conf_tree') == v.rets[0], trusted=True)
    R.ghosts['conf_tree'] = Int
    c.frame()

    def read_conf(v):
        top = v.eng.top
        if top.con.name != '(*cljfmt.config).parseDotConfig':
            return T
        return And(v.a('r') == top.a('r'), v.a('opts') % 2 == 0)
    c.req('C15', 'the configuration given is read, without comments and newlines', read_conf)

    c = R.fn('cljfmt.parseOverrides', 'nodes', 'name').tags_only('C15')
    c.frame()

    def post(v):
        s = v.a('nodes')
        return (v.rets[1] == 0) == ok_pairs(v.pre, s.arr, s.off, s.len)
    c.ens('C15', 'malformed overrides are errors, others are not', post)

    def post2(v):
        s = v.a('nodes')
        return Implies(v.rets[1] == 0, And(v.ret != 0, v.ret >= v.pre.nxt, overrides_are(v, v.ret, s.arr, s.off, s.len)))
    c.ens('C15', 'each name has the style of its last pair', post2)

    def over_cands(lv):
        out = []
        top = lv.eng.top
        if top.con.name != 'cljfmt.parseOverrides':
            return out
        s = top.a('nodes')
        ints = [('env', r, r[1][1]) if False else r for r, t in lv.vars['int']]
        used = regs_used(lv)
        pre = lv.pre
        envs = [(n, pre.env.get((lv.fr.depth, n)), t) for n, t in sorted(used.items())]
        maps = [(n, e) for (d, n), e in sorted(pre.env.items(), key=str) if d == lv.fr.depth and isinstance(e, z3.ExprRef) and lv.fn.defs.get(n, {}).get('t') == MSS]
        outer = outer_phis(lv, 'int')

        def prefix_ok(v, i):
            h = hp(v.sv())
            j = z3.Int('j!p')
            ok_pair(v.sv(), s.arr, s.off, i)
            p = pair_ok(*h, s.arr, s.off, j)
            return And(i % 2 == 0, z3.ForAll([j], Implies(And(0 <= j, j < i, j % 2 == 0), p), patterns=[p]))
        for r in ints:
            out.append(('even', lambda v, r=r: v.get(r) % 2 == 0))
            out.append(('pairs seen are well formed', lambda v, r=r: prefix_ok(v, v.get(r))))
            for n, m in maps:
                out.append(('overrides of the pairs seen', lambda v, r=r, m=m: overrides_are(v.sv(), m, s.arr, s.off, v.get(r))))
        # the names of one pair: i is fixed in the loop
        for n, i in outer:
            e = elem(top, s.arr, s.off + i)
            for r in ints:
                for n2, m in maps:
                    out.append(('names seen are added', lambda v, r=r, m=m, i=i, e=e: overrides_are(
                        v.sv(), m, s.arr, s.off, i, (named_in(v.sv(), e, v.get(r) + 1), val_of(v.sv(), elem(v.sv(), s.arr, s.off + i + 1))))))
                ks = kids(top, e)

                def strs(v, r=r, e=e, ks=ks):
                    j = z3.Int('j!s')
                    row = v.eng.named(v.sv().row('parse.Node', ks.arr))
                    return z3.ForAll([j], Implies(And(ks.off <= j, j <= ks.off + v.get(r)), isT(v, z3.Select(row, j), 'StringNode')),
                                     patterns=[z3.Select(row, j)])
                out.append(('names seen are strings', strs))
                for r2, t2 in lv.vars['slice']:
                    def same(v, r=r, r2=r2, e=e):
                        x = v.get(r2)
                        j = z3.Int('j!t')
                        row = v.eng.named(v.sv().row('string', x.arr))
                        krow = v.eng.named(v.sv().row('parse.Node', ks.arr))
                        val = v.eng.named(v.sv().H(VAL))
                        return And(x.len == v.get(r) + 1, z3.ForAll([j], Implies(And(x.off <= j, j < x.off + x.len), z3.Select(row, j) == z3.Select(
                            val, z3.Select(krow, ks.off + j - x.off))), patterns=[z3.Select(row, j)]))
                    out.append(('names collected', same))
        return out
    c.cand(over_cands)

    # ---- the whole configuration
    FIELDS = {':extensions': 'extensions', ':indent-overrides': 'indentOverrides', ':thread-first-overrides': 'threadFirstOverrides'}

    def settings(v, c, arr, off, i, keys=KEYS):
        out = []
        for k in keys:
            le = last_entry(v, arr, off, i, k)
            f = v.eng.named(elem(v, arr, off + le + 1))
            s = kids(v, f)
            s = nsl(v, s)
            out.append(z3.If(le >= 0, setting(v, k, (s, f), c), v.F(c, 'cljfmt.config', FIELDS[k]) == v.pre.F(c, 'cljfmt.config', FIELDS[k])))
        return And(*out)

    def entries_ok(v, arr, off, i):
        j = z3.Int('j!q')
        p = entry_ok(*hp(v), arr, off, j)
        return z3.ForAll([j], Implies(And(0 <= j, j < i, j % 2 == 0), p), patterns=[p])

    def tree(v):
        t = v.gh('conf_tree')
        rs = v.F(t, 'parse.Tree', 'Roots')
        m = v.eng.named(elem(v, rs.arr, rs.off))
        s = kids(v, m)
        return t, rs, m, nsl(v, s)

    c = R.fn('(*cljfmt.config).parseDotConfig', 'c', 'r', 'name').tags_only('C15')
    c.work = 4
    c.req('C15', 'there is a configuration', lambda v: v.a('c') != 0)

    def accepted(v):
        t, rs, m, s = tree(v)
        return (v.ret == 0) == And(t != 0, Or(rs.len == 0, And(rs.len == 1, isT(v, m, 'MapNode'), s.len % 2 == 0, entries_ok(v, s.arr, s.off, s.len))))
    c.ens('C15', 'malformed configurations are errors, others are not', accepted)

    def applied(v, k):
        t, rs, m, s = tree(v)
        same = v.F(v.a('c'), 'cljfmt.config', FIELDS[k]) == v.pre.F(v.a('c'), 'cljfmt.config', FIELDS[k])
        return And(Implies(And(v.ret == 0, rs.len == 0), same), Implies(And(v.ret == 0, rs.len > 0), settings(v, v.a('c'), s.arr, s.off, s.len, (k,))))
    for k in KEYS:
        c.ens('C15', '%s means what it says, and is kept if not given' % k, lambda v, k=k: applied(v, k))

    def conf_cands(lv):
        out = []
        top = lv.eng.top
        if top.con.name != '(*cljfmt.config).parseDotConfig':
            return out
        used = regs_used(lv)
        pre = lv.pre
        envs = [(n, pre.env.get((lv.fr.depth, n)), t) for n, t in sorted(used.items())]
        cur = outer_phis(lv, 'int')
        cc = top.a('c')

        def node(v):
            return tree(v)[3]
        ints = [r for r, t in lv.vars['int']]
        for r in ints:
            out.append(('even', lambda v, r=r: v.get(r) % 2 == 0))

            def seen_ok(v, i):
                w = v.sv()
                s = node(w)
                ok_entry(w, s.arr, s.off, i)
                return And(i % 2 == 0, entries_ok(w, s.arr, s.off, i))
            out.append(('within the map', lambda v, r=r: And(v.get(r) % 2 == 0, node(v.sv()).len % 2 == 0, v.get(r) <= node(v.sv()).len)))
            out.append(('entries seen are well formed', lambda v, r=r: seen_ok(v, v.get(r))))
            for k in KEYS:
                out.append(('settings of the entries seen', lambda v, r=r, k=k: settings(v.sv(), cc, node(v.sv()).arr, node(v.sv()).off, v.get(r), (k,))))
        # in the loops over the value of the entry at i
        for n, i in cur:
            f = lambda w, i=i: w.eng.named(elem(w, node(w).arr, node(w).off + i + 1))
            for r in ints:
                def ext(v, r=r, f=f):
                    w = v.sv()
                    m = w.F(cc, 'cljfmt.config', 'extensions')
                    x = z3.Const('s!x', Str)
                    d = w.eng.named(w.dom(MSET, m))
                    nm = named_in(w, f(w), v.get(r) + 1)
                    return And(m != 0, z3.ForAll([x], z3.Select(d, x) == nm(x), patterns=[z3.Select(d, x)]))
                out.append(('extensions seen are set', ext))

                def strs(v, r=r, f=f):
                    w = v.sv()
                    s = kids(w, f(w))
                    j = z3.Int('j!y')
                    row = w.eng.named(w.row('parse.Node', s.arr))
                    return z3.ForAll([j], Implies(And(s.off <= j, j <= s.off + v.get(r)), isT(w, z3.Select(row, j), 'StringNode')), patterns=[z3.Select(row, j)])
                out.append(('extensions seen are strings', strs))
            for it in iters(lv):
                for key, (fl, mt, g) in TABLES.items():
                    def fill(v, it=it, fl=fl, mt=mt, g=g):
                        w = v.sv()
                        m = w.F(cc, 'cljfmt.config', fl)
                        x = z3.Const('s!z', Str)
                        d, vals = w.eng.named(w.dom(mt, m)), w.eng.named(z3.Select(w.H(('MV', mt, '')), m))
                        vis = w.eng.named(v.st.cells[('it', it.eid)])
                        ov = w.eng.named(z3.Select(w.H(('MV', MSS, '')), it.m))
                        td, tw = w.eng.named(w.dom(mt, w.eng.glob_ref(g))), w.eng.named(z3.Select(w.H(('MV', mt, '')), w.eng.glob_ref(g)))
                        y = z3.Select(ov, x)
                        return And(m != 0, z3.ForAll([x], And(z3.Select(d, x) == z3.Select(vis, x), Implies(z3.Select(vis, x), And(
                            z3.Select(td, y), z3.Select(vals, x) == z3.Select(tw, y)))), patterns=[z3.Select(d, x), z3.Select(vals, x), z3.Select(vis, x)]))
                    out.append(('styles visited are set', fill))
            for k in KEYS:
                out.append(('settings of the entries before', lambda v, i=i, k=k: settings(v.sv(), cc, node(v.sv()).arr, node(v.sv()).off, i, (k,))))
        return out
    c.cand(conf_cands)

    # ---- flags
    c = R.fn('(cljfmt.transformFlag).Set', 'tf', 'v').tags_only('C15')
    c.req('C15', 'the set of transforms exists', lambda v: v.a('tf').f['m'] != 0)
    consts = R.prog.consts
    MB = 'map[format.Transform]bool'

    def flag_ok(v):
        known = Or(*[v.a('v') == S.lit(n) for n in FLAGS])
        return (v.ret == 0) == known

    def flag_set(v):
        m, b = v.a('tf').f['m'], v.a('tf').f['b']
        d0, w0 = v.pre.dom(MB, m), z3.Select(v.pre.H(('MV', MB, '')), m)
        d1, w1 = v.dom(MB, m), z3.Select(v.H(('MV', MB, '')), m)
        out = [Implies(v.ret != 0, And(d1 == d0, w1 == w0))]
        for n, t in FLAGS.items():
            k = I(int(consts['format.' + t]))
            out.append(Implies(v.a('v') == S.lit(n), And(d1 == z3.Store(d0, k, T), w1 == z3.Store(w0, k, b))))
        return And(*out)
    c.ens('C15', 'exactly the documented names are accepted', flag_ok)
    c.ens('C15', 'exactly the transform of that name is turned on or off', flag_set)

    def tables(eng, st):
        for g, want in (('cljfmt.indentStyles', STYLES), ('cljfmt.threadFirstStyles', THREAD)):
            have = R.prog.gconst.get(g)
            exp = {k: str(consts['format.' + c]) for k, c in want.items()}
            eng.oblige(st, z3.BoolVal(have is not None and have[0] == 'map' and have[1] == exp), '%s holds the documented keywords' % g, 'C15')
    R.lemmas['README: style keywords'] = tables
