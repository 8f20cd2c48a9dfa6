"""Contracts of the choice of indentation styles (C13)."""
import z3
from terms import *
from contracts import *
from engine import Slice, StructV, SView, SkipCand

P = '*format.Printer'
MS = 'map[string]format.IndentStyle'
MT = 'map[string]format.ThreadFirstStyle'
MN = 'map[parse.Node]format.IndentStyle'
MNS = 'map[parse.Node]struct{}'
SS = 'map[string]string'
NODES_T = '[]parse.Node'
NORMAL, LIST, BODY, LET, FOR, BINDINGS, LETFN, DEFTYPE, COND0, COND1, COND2, COND4 = range(12)
PAIRS = {BINDINGS: 0, COND0: 1, COND1: 2, COND2: 3, COND4: 5}


def pf(v, p, name):
    return v.F(p, 'format.Printer', name)


def lookup(v, p, name):
    """(style, found): the documented precedence."""
    styles = pf(v, p, 'indentStyles')
    req, ref = pf(v, p, 'requires'), pf(v, p, 'refers')
    get = lambda k: v.mget(MS, styles, k)
    slash = S.lit('/')
    i = S.lastindex(name, slash)
    ns, un = S.sub(name, I(0), i), S.sub(name, i + 1, S.len(name))
    rn, rok = v.mget(SS, req, ns)
    fn_, fok = v.mget(SS, ref, name)
    q = get(S.cat(S.cat(rn, slash), un))
    u = get(un)
    f = get(S.cat(S.cat(fn_, slash), name))
    w = get(name)
    a = And(i >= 0, rok, q[1])
    b = And(i >= 0, u[1])
    c = And(i < 0, fok, f[1])
    val = z3.If(a, q[0], z3.If(b, u[0], z3.If(c, f[0], w[0])))
    ok = Or(a, b, c, w[1])
    return val, ok


def sym_name(name):
    i = S.lastindex(name, S.lit('/'))
    return z3.If(i >= 0, S.sub(name, i + 1, S.len(name)), name)


def list_style(v, p, name):
    val, ok = lookup(v, p, name)
    sn = v.eng.named(sym_name(name))
    body = Or(*[S.prefix(sn, S.lit(x)) for x in ('def', 'let', 'with-', 'when-')])
    return z3.If(ok, val, z3.If(body, I(BODY), I(LIST)))


def isT(v, n, ty):
    return v.eng.is_type(n, 'parse.' + ty)


def val_of(v, n):
    return v.eng.load_key(v.st, ('F', 'Val', 'string'), 'string', n)


def kids(v, n):
    return v.eng.load_key(v.st, ('F', 'Nodes', NODES_T), NODES_T, n)


def seq_style(v, p, s):
    """The style of a list with the elements s."""
    h = z3.Select(v.row('parse.Node', s.arr), s.off)
    return z3.If(s.len == 0, I(NORMAL),
                 z3.If(isT(v, h, 'KeywordNode'), I(LIST),
                       z3.If(isT(v, h, 'SymbolNode'), list_style(v, p, val_of(v, h)), I(NORMAL))))


def threaded(s):
    return z3.If(s == COND1, I(COND0), z3.If(s == COND2, I(COND1), s))


def form_style(v, p, n):
    """The style the elements of form n are printed in."""
    sp, sok = v.mget(MN, pf(v, p, 'specialIndent'), n)
    _, th = v.mget(MNS, pf(v, p, 'threadFirst'), n)
    own = seq_style(v, p, kids(v, n))
    ls = z3.If(sok, sp, own)
    return z3.If(isT(v, n, 'ListNode'), z3.If(th, threaded(ls), ls),
                 z3.If(isT(v, n, 'FnLiteralNode'), own,
                       z3.If(isT(v, n, 'VectorNode'), z3.If(sok, sp, I(NORMAL)),
                             z3.If(isT(v, n, 'SetNode'), I(NORMAL), I(BINDINGS)))))


depth = fn('depth', Int, Int)


def is_tree(v):
    """The nodes form a tree: a child is deeper than its parent."""
    n, j = z3.Int('n!d'), z3.Int('j!d')
    s = [v.eng.named(v.H(('F', 'Nodes', NODES_T, pt))) for pt in ('arr', 'off', 'len')]
    arr, off, ln = [z3.Select(x, n) for x in s]
    e = z3.Select(z3.Select(v.eng.named(v.H(('E', 'parse.Node', ''))), arr), j)
    return z3.ForAll([n, j], z3.Implies(And(off <= j, j < off + ln), depth(e) > depth(n)),
                     patterns=[z3.MultiPattern(e, arr)])


place = fn('place', Int, Int)       # the node a node is an element of
index = fn('index', Int, Int)       # its index there


def one_place(v):
    """Every node is an element of one node, in one place."""
    n, j = z3.Int('n!p'), z3.Int('j!p')
    s = [v.eng.named(v.H(('F', 'Nodes', NODES_T, pt))) for pt in ('arr', 'off', 'len')]
    arr, off, ln = [z3.Select(x, n) for x in s]
    e = z3.Select(z3.Select(v.eng.named(v.H(('E', 'parse.Node', ''))), arr), j)
    return z3.ForAll([n, j], z3.Implies(And(v.eng.in_group(n, 'cont'), off <= j, j < off + ln), And(place(e) == n, index(e) == j - off)),
                     patterns=[z3.MultiPattern(e, arr)])


ROW = z3.ArraySort(Int, Int)
ecount = fn('elements_before', ROW, Int, Int, Int)


def elements_before(v, row, off, j):
    """The number of elements other than comments and newlines at off..j-1."""
    row = v.eng.named(row)
    c = lambda i: ecount(row, off, i)
    e = z3.Select(row, j - 1)
    lay = Or(isT(v, e, 'CommentNode'), isT(v, e, 'NewlineNode'))
    v.eng.fact(And(c(off) == 0, z3.Implies(j > off, c(j) == c(j - 1) + z3.If(lay, I(0), I(1)))))
    return c(j)


def no_nil(v):
    n, j = z3.Int('n!z'), z3.Int('j!z')
    s = [v.eng.named(v.H(('F', 'Nodes', NODES_T, pt))) for pt in ('arr', 'off', 'len')]
    arr, off, ln = [z3.Select(x, n) for x in s]
    e = z3.Select(z3.Select(v.eng.named(v.H(('E', 'parse.Node', ''))), arr), j)
    return z3.ForAll([n, j], z3.Implies(And(v.eng.in_group(n, 'cont'), off <= j, j < off + ln), e != 0), patterns=[z3.MultiPattern(e, arr)])


def thread_marks(v, upto):
    """The threaded elements of the form among the first upto are marked, nothing else is."""
    p, f, style = v.a('p'), v.a('form'), v.a('style')
    q = z3.Int('q!t')
    m = pf(v, p, 'threadFirst')
    d1, d0 = v.eng.named(v.dom(MNS, m)), v.eng.named(v.pre.dom(MNS, pf(v.pre, p, 'threadFirst')))
    s = kids(v.pre, f)
    row = v.eng.named(v.pre.row('parse.Node', s.arr))
    begin = v.eng.named(z3.If(z3.Select(d0, f), I(1), I(2)))
    cnt = ecount(row, s.off, s.off + index(q))
    # from the begin-th element on; cond-> threads through every other one
    thr = And(cnt >= begin, Or(style == 0, And(style == 1, (cnt - begin) % 2 == 1)))
    return And(m == pf(v.pre, p, 'threadFirst'), z3.ForAll([q], z3.Select(d1, q) == Or(z3.Select(d0, q), And(
        z3.Select(row, s.off + index(q)) == q, index(q) >= 0, index(q) < upto, isT(v, q, 'ListNode'), thr)), patterns=[z3.Select(d1, q)]))


RELEVANT = [('MD', MS), ('MV', MS, ''), ('MD', MT), ('MV', MT, ''), ('MD', MN), ('MV', MN, ''), ('MD', SS), ('MV', SS, '')] + \
    [('F', f, t, '') for f, t in (('indentStyles', MS), ('threadFirstStyles', MT), ('specialIndent', MN), ('threadFirst', MNS),
                                  ('requires', SS), ('refers', SS))]


def style_module(R):
    def rule(eng, name, g):
        if 'C13' not in eng.tags or not name.split('.')[0].lstrip('(*').startswith('format') or g.free or uses_recover(g):
            return False
        m = eng.fn_mods(name)
        if not m:
            return False
        return not any(k in m for k in RELEVANT) or name.endswith(('.applyTransforms', '.markRequires', '.markThreadFirsts', '.markDocstrings'))
    R.opaque_rules.append(rule)

    c = R.fn('(*format.Printer).indentStyleForSymbol', 'p', 'name').tags_only('C13')
    c.ens('C13', 'found exactly when a rule applies', lambda v: v.rets[1] == lookup(v, v.a('p'), v.a('name'))[1])
    c.ens('C13', 'the rule of highest precedence applies', lambda v: Implies(v.rets[1], v.rets[0] == lookup(v, v.a('p'), v.a('name'))[0]))
    c.frame()
    c = R.fn('(*format.Printer).chooseListIndent', 'p', 'name').tags_only('C13')
    c.ens('C13', 'the rule for the name, else by its prefix', lambda v: v.ret == list_style(v, v.a('p'), v.a('name')))
    c.frame()
    c = R.fn('(*format.Printer).chooseIndent', 'p', 'nodes').tags_only('C13')
    c.ens('C13', 'the style of the head of the form', lambda v: v.ret == seq_style(v, v.a('p'), v.a('nodes')))
    c.frame()
    c = R.fn('(format.IndentStyle).threadFirstTransform', 'style').tags_only('C13')
    c.ens('C13', 'paired styles are shifted by one', lambda v: v.ret == threaded(v.a('style')))
    c.frame()

    # ---- printing
    c = R.fn('(*format.Printer).applySpecialIndentRules', 'p', 'node').tags_only('C13')
    c.raises('*')

    def below(v):
        """Only entries of nodes below the list change."""
        p, n = v.a('p'), v.a('node')
        q = z3.Int('q!b')
        m = pf(v, p, 'specialIndent')
        d1, d0 = v.eng.named(v.dom(MN, m)), v.eng.named(v.pre.dom(MN, m))
        w1, w0 = [v.eng.named(z3.Select(x.H(('MV', MN, '')), m)) for x in (v, v.pre)]
        return z3.ForAll([q], z3.Implies(depth(q) <= depth(n), And(z3.Select(d1, q) == z3.Select(d0, q), z3.Select(w1, q) == z3.Select(w0, q))),
                         patterns=[z3.Select(d1, q), z3.Select(w1, q)])
    c.ens('C13', 'changes the styles of nodes below the list only', below)
    c.axiom('C13', 'the nodes form a tree', is_tree)

    c = R.fn('(*format.Printer).printNode', 'p', 'node', 'w').tags_only('C13')
    c.raises('*')
    c.axiom('C13', 'the nodes form a tree', is_tree)
    c = R.fn('(*format.Printer).printSequence', 'p', 'nodes', 'w', 'style').tags_only('C13')
    c.raises('*')

    def style_ok(v):
        top = v.eng.top
        if top.con.name == '(*format.Printer).printNode':
            p, n = top.a('p'), top.a('node')
            s, k = v.a('nodes'), kids(v, n)
            return And(v.a('style') == form_style(top, p, n), s.arr == k.arr, s.off == k.off, s.len == k.len, v.a('p') == p)
        if top.con.name == '(*format.Printer).PrintTree':
            return v.a('style') == NORMAL
        return T
    c.req('C13', "a form's elements are printed in the form's style", style_ok)

    def tables(v):
        top = v.eng.top
        if top.con.name != '(*format.Printer).PrintTree':
            return T
        return tables_ok(v, v.a('p'))
    c.req('C13', 'overrides win over defaults, and no other rules exist', tables)

    c = R.fn('(*format.Printer).PrintTree', 'p', 't').tags_only('C13')
    c.raises('*')

    c = R.fn('(*format.Printer).markThreadFirsts', 'p', 'n').tags_only('C13')
    c.raises('*')
    c.axiom('C13', 'the printer was made by NewPrinter', lambda v: And(pf(v, v.a('p'), 'threadFirst') != 0, v.a('n') != 0))
    c.axiom('C13', 'the nodes form a tree', one_place)
    c.axiom('C13', 'no nil elements', no_nil)

    def grows(v):
        p = v.a('p')
        q = z3.Int('q!g')
        m = pf(v, p, 'threadFirst')
        d1, d0 = v.eng.named(v.dom(MNS, m)), v.eng.named(v.pre.dom(MNS, pf(v.pre, p, 'threadFirst')))
        return And(m == pf(v.pre, p, 'threadFirst'), z3.ForAll([q], z3.Implies(z3.Select(d0, q), z3.Select(d1, q)), patterns=[z3.Select(d1, q)]))

    def head_style(v):
        """(style, whether the form is headed by a thread-first symbol)"""
        p, f = v.a('p'), v.a('n')
        s = kids(v, f)
        h = z3.Select(v.row('parse.Node', s.arr), s.off)
        st, ok = v.mget(MT, pf(v, p, 'threadFirstStyles'), val_of(v, h))
        return st, And(Or(isT(v, f, 'ListNode'), isT(v, f, 'FnLiteralNode')), s.len > 0, isT(v, h, 'SymbolNode'), ok)

    def own_marks(v):
        """At least the threaded elements of n are marked."""
        p, f = v.a('p'), v.a('n')
        style, ok = head_style(v.pre)
        q = z3.Int('q!o')
        d1, d0 = [v.eng.named(x.dom(MNS, pf(x, p, 'threadFirst'))) for x in (v, v.pre)]
        s = kids(v.pre, f)
        row = v.eng.named(v.pre.row('parse.Node', s.arr))
        begin = v.eng.named(z3.If(z3.Select(d0, f), I(1), I(2)))
        cnt = ecount(row, s.off, s.off + index(q))
        thr = And(cnt >= begin, Or(style == 0, And(style == 1, (cnt - begin) % 2 == 1)))
        return z3.ForAll([q], z3.Implies(And(ok, z3.Select(row, s.off + index(q)) == q, index(q) >= 0, index(q) < s.len,
                                             isT(v, q, 'ListNode'), thr), z3.Select(d1, q)), patterns=[z3.Select(d1, q)])
    c.ens('C13', 'marks are kept', grows)
    c.ens('C13', 'the threaded elements of the form are marked', own_marks)
    c.cand(lambda lv: [('marks are kept', lambda v: grows(v.sv())), ('own elements stay marked', lambda v: own_marks(v.sv()))])

    def call_style(v):
        top = v.eng.top
        if top.con.name != '(*format.Printer).markThreadFirsts':
            return T
        st, ok = head_style(top)
        return And(ok, v.a('style') == st, v.a('form') == top.a('n'), v.a('p') == top.a('p'))

    c = R.fn('(*format.Printer).markThreadFirstStyle', 'p', 'form', 'style').tags_only('C13')
    c.req('C13', 'the form is a list or a function literal', lambda v: Or(isT(v, v.a('form'), 'ListNode'), isT(v, v.a('form'), 'FnLiteralNode')))
    c.req('C13', 'the style is that of the head', call_style)
    c.req('C13', 'the table of threaded forms exists', lambda v: pf(v, v.a('p'), 'threadFirst') != 0)
    c.axiom('C13', 'the nodes form a tree', one_place)
    c.ens('C13', 'exactly the threaded elements of the form are marked', lambda v: thread_marks(v, kids(v.pre, v.a('form')).len))

    def cands(lv):
        out = []
        top = lv.eng.top
        name = top.con.name
        if name == '(*format.Printer).markThreadFirstStyle':
            s = kids(top, top.a('form'))
            row = top.row('parse.Node', s.arr)
            for ref, t in lv.vars['int']:
                out.append(('elements seen are marked', lambda v, ref=ref: thread_marks(v.sv(), v.get(ref) + 1)))
                for r2, t2 in lv.vars['int']:
                    if ref != r2:
                        out.append(('elements counted', lambda v, ref=ref, r2=r2: v.get(r2) == elements_before(top, row, s.off, s.off + v.get(ref) + 1)))
        if name == '(*format.Printer).applySpecialIndentRules':
            out.append(('styles of nodes below only', lambda v: below(v.sv())))
        if name == '(*format.Printer).PrintTree':
            none = z3.K(Str, F)
            for t in TABLES:
                ms = [(t[0], None)] + [(n, e) for n, e in (
                    (n, lv.pre.env.get((lv.fr.depth, n))) for n, x in sorted(regs_used(lv).items()) if x == t[1]) if isinstance(e, z3.ExprRef)]
                for n, m in ms:
                    for it in [x for x in iters(lv) if x.mt == t[1]]:
                        out.append(('%s hold the defaults visited' % n, lambda v, t=t, it=it, m=m: merged(
                            v.sv(), top.a('p'), *t, seen_d=v.st.cells[('it', it.eid)], seen_o=none, m=m)))
                        out.append(('%s hold the overrides visited' % n, lambda v, t=t, it=it, m=m: merged(
                            v.sv(), top.a('p'), *t, seen_o=v.st.cells[('it', it.eid)], m=m)))
                    out.append(('%s complete' % n, lambda v, t=t, m=m: merged(v.sv(), top.a('p'), *t, m=m)))
        return out
    R.cands.append(cands)


TABLES = (('indentStyles', MS, 'IndentOverrides', 'format.defaultIndents'),
          ('threadFirstStyles', MT, 'ThreadFirstStyleOverrides', 'format.defaultThreadFirstStyles'))


def merged(v, p, f, mt, over, default, seen_d=None, seen_o=None, m=None):
    """The map in field f (or m) holds the default entries (seen_d) and over them the overrides (seen_o)."""
    k = z3.Const('k!m', Str)
    m = pf(v, p, f) if m is None else m
    d, w = v.eng.named(v.dom(mt, m)), v.eng.named(z3.Select(v.H(('MV', mt, '')), m))
    g = v.eng.glob_ref(default)
    o = pf(v, p, over)
    sd = z3.Select(v.dom(mt, g), k) if seen_d is None else z3.Select(seen_d, k)
    so = And(o != 0, z3.Select(v.dom(mt, o), k)) if seen_o is None else z3.Select(seen_o, k)
    vd = z3.Select(z3.Select(v.H(('MV', mt, '')), g), k)
    vo = z3.Select(z3.Select(v.H(('MV', mt, '')), o), k)
    return z3.ForAll([k], And(z3.Select(d, k) == Or(sd, so),
                              z3.Implies(so, z3.Select(w, k) == vo), z3.Implies(And(sd, Not(so)), z3.Select(w, k) == vd)),
                     patterns=[z3.Select(d, k), z3.Select(w, k)])


def tables_ok(v, p):
    return And(*[merged(v, p, *t) for t in TABLES])


def uses_recover(g):
    return any(i['op'] in ('Call', 'Defer') and i['fn'].get('k') == 'b' and i['fn'].get('n') == 'recover'
               for b in g.blocks for i in b['ins'])
