"""Contracts of the transforms that only move line breaks (C08)."""
import z3
from terms import *
from contracts import *
from engine import Slice, StructV, SView, SkipCand
from spec_style import isT, kids, NODES_T, depth

TAGS = ('C08',)
ROW = z3.ArraySort(Int, Int)
# A reading of a sequence of elements, line breaks and elements alternating: what has been read (an
# abstract value) and then an element.  A run of line breaks reads like one.
pfold = fn('reading', Int, ROW, Int, Int, Int)      # before, row, first, number: after
brk = fn('and_break', Int, Int)
elm = fn('and_element', Int, Int, Int)
word = fn('elements_of', Int, Int)                  # a reading without its line breaks
wel = fn('word_and_element', Int, Int, Int)
le2 = fn('breaks_added', Int, Int, Bool)            # a, b: b is a with line breaks added
keeps = fn('breaks_kept', Int, Int, Bool)           # a, b: the same, but for line breaks at the end of a
T_ = z3.Const('the_tree', z3.ArraySort(Int, Bool))
E_KEY = ('E', 'parse.Node', '')
START = I(0)


def step(eng, a, e):
    return z3.If(eng.is_type(e, 'parse.NewlineNode'), brk(a), elm(a, e))


def theory(eng):
    """The definitions of reading and of the relations (the least ones with these rules)."""
    a, b, c, e, o, l = z3.Ints('a!w b!w c!w e!w o!w l!w')
    r = z3.Const('r!w', ROW)
    A = lambda vs, f, *p: z3.ForAll(vs, f, patterns=[p[0] if len(p) == 1 else z3.MultiPattern(*p)])
    P = pfold(a, r, o, l)
    return And(
        A([a, r, o, l], And(Implies(l <= 0, P == a), Implies(l == 1, P == step(eng, a, z3.Select(r, o)))), P),
        A([a], brk(brk(a)) == brk(a), brk(brk(a))),
        A([a], word(brk(a)) == word(a), word(brk(a))),
        A([a, e], word(elm(a, e)) == wel(word(a), e), word(elm(a, e))),
        A([a, b, r, o, l], Implies(word(a) == word(b), word(pfold(a, r, o, l)) == word(pfold(b, r, o, l))),
          word(pfold(a, r, o, l)), word(pfold(b, r, o, l))),
        A([a], le2(a, a), le2(a, a)),
        A([a, b], Implies(le2(a, b), le2(a, brk(b))), le2(a, brk(b))),
        A([a, b], Implies(le2(a, b), le2(brk(a), brk(b))), le2(brk(a), brk(b))),
        A([a, b, e], Implies(le2(a, b), le2(elm(a, e), elm(b, e))), le2(elm(a, e), elm(b, e))),
        A([a, b, r, o, l], Implies(le2(a, b), le2(pfold(a, r, o, l), pfold(b, r, o, l))), le2(pfold(a, r, o, l), pfold(b, r, o, l))),
        A([a, b, c], Implies(And(le2(a, b), le2(b, c)), le2(a, c)), le2(a, b), le2(b, c)),
        A([a], keeps(a, a), keeps(a, a)),
        A([a, b], Implies(le2(a, brk(b)), keeps(a, b)), keeps(a, b)),
        A([a, b, c], Implies(And(keeps(a, b), keeps(b, c)), keeps(a, c)), keeps(a, b), keeps(b, c)),
        A([a, b], Implies(keeps(a, brk(b)), keeps(a, b)), keeps(a, b)),
        A([a, b], Implies(keeps(a, b), word(a) == word(b)), keeps(a, b)))


def cut(eng, row, i):
    """A reading that spans element i is that of what is before it, of it, of what follows."""
    a, o, l = z3.Ints('a!c o!c l!c')
    P = pfold(a, row, o, l)
    e = eng.named(z3.Select(row, i))
    i = eng.named(i)
    eng.fact(z3.ForAll([a, o, l], Implies(And(o <= i, i < o + l), P == pfold(step(eng, pfold(a, row, o, i - o), e), row, i + 1, o + l - i - 1)), patterns=[P]))


def split(eng, row, q):
    a, o, l = z3.Ints('a!c o!c l!c')
    P = pfold(a, row, o, l)
    q = eng.named(q)
    eng.fact(z3.ForAll([a, o, l], Implies(And(o < q, q < o + l), P == pfold(pfold(a, row, o, q - o), row, q, o + l - q)), patterns=[P]))


def hook(eng, st, kind, el, arr, x, y):
    if el != 'parse.Node' or not (set(TAGS) & eng.tags):
        return
    rowof = lambda H, a: eng.named(z3.simplify(z3.Select(H, a)))
    H = eng.comp(st, E_KEY)
    a, o, l = z3.Ints('a!c o!c l!c')
    if kind == 'load':
        key = ('cut', H.get_id(), arr.get_id(), x.get_id())
        if key not in eng.seen_cuts:
            eng.seen_cuts[key] = (H, arr, x)
            cut(eng, rowof(H, arr), x)
    elif kind == 'slice':
        for q in (x, y):
            split(eng, rowof(H, arr), q)
    elif kind == 'store':
        r0, r1 = rowof(y, arr), rowof(H, arr)
        cut(eng, r0, x), cut(eng, r1, x)
        P = pfold(a, r1, o, l)
        i = eng.named(x)
        eng.fact(z3.ForAll([a, o, l], Implies(Or(o + l <= i, o > i), P == pfold(a, r0, o, l)), patterns=[P]))
    elif kind == 'append':
        s, t, arr2 = arr
        r0, r1 = rowof(y, s.arr), rowof(H, arr2)
        mid, n = eng.named(s.off + s.len), eng.named(x)
        for i in range(min(ival(s.len) or 0, 4)):
            cut(eng, r0, z3.simplify(s.off + i))
        P = pfold(a, r1, o, l)
        eng.fact(z3.ForAll([a, o, l], Implies(o + l <= mid, P == pfold(a, r0, o, l)), patterns=[P]))
        if t is None:
            for k in range(ival(x)):
                cut(eng, r1, z3.simplify(s.off + s.len + k))
        else:
            rt, to = rowof(y, t.arr), eng.named(t.off)
            eng.fact(z3.ForAll([a, o, l], Implies(And(o <= mid, mid < o + l, o + l <= mid + n), P == pfold(pfold(a, r0, o, mid - o), rt, to, o + l - mid)),
                               patterns=[P]))


# ---------------------------------------------------------------- the tree
def nodes_of(v):
    return [v.eng.named(v.H(('F', 'Nodes', NODES_T, pt))) for pt in ('arr', 'off', 'len', 'cap')]


def in_tree(v, e):
    return Or(z3.Select(T_, e), isT(v, e, 'NewlineNode'))


def tree_ok(v):
    """[(name, f)] of the nodes of the tree: elements are nodes of the tree further down; arrays of elements are not shared."""
    eng = v.eng
    n, j, q = z3.Ints('n!t j!t q!t')
    arr, off, ln, cap = [z3.Select(x, n) for x in nodes_of(v)]
    own = eng.named(v.gh('own'))
    e = z3.Select(z3.Select(eng.named(v.H(E_KEY)), arr), j)
    w = z3.Select(eng.named(v.H(('F', 'Node', 'parse.Node', ''))), n)
    t = z3.Select(T_, n)
    cont = eng.in_group(n, 'cont')
    ok = lambda e: And(e != 0, eng.is_node(e), in_tree(v, e), Or(isT(v, e, 'NewlineNode'), depth(e) > depth(n)))
    return [('elements are nodes of the tree', z3.ForAll([n, j], Implies(And(t, cont, off <= j, j < off + ln), ok(e)), patterns=[z3.MultiPattern(t, e)])),
            ('wrapped nodes are nodes of the tree', z3.ForAll([n], Implies(And(t, eng.in_group(n, 'wrap')), ok(w)), patterns=[t])),
            ('every node has its own array', z3.ForAll([n], Implies(And(t, cont), And(
                arr >= 0, arr < v.nxt, off >= 0, ln >= 0, ln <= cap, Implies(arr == 0, cap == 0), Implies(arr != 0, z3.Select(own, arr) == n))), patterns=[t])),
            ('arrays that do not exist belong to no node', z3.ForAll([q], Implies(q >= v.nxt, z3.Select(own, q) == 0), patterns=[z3.Select(own, q)])),
            ('nodes of the tree exist', z3.ForAll([n], Implies(t, And(n > 0, n < v.nxt, eng.is_node(n), Not(isT(v, n, 'NewlineNode')))), patterns=[t]))]


def reading(v, s):
    return pfold(START, v.eng.named(z3.simplify(v.row('parse.Node', s.arr))), s.off, s.len)


def reading_of(v, n):
    arr, off, ln, cap = [z3.Select(x, n) for x in nodes_of(v)]
    return pfold(START, z3.Select(v.eng.named(v.H(E_KEY)), arr), off, ln)


def all_nodes(v, rel):
    n = z3.Int('n!a')
    t = z3.Select(T_, n)
    return z3.ForAll([n], Implies(And(t, v.eng.in_group(n, 'cont')), rel(reading_of(v.pre, n), reading_of(v, n))), patterns=[t])


def elsewhere(v, top):
    """What is not below top stays."""
    eng = v.eng
    x, q = z3.Ints('x!e q!e')
    chg = lambda n: And(z3.Select(T_, n), depth(n) >= depth(top), Not(isT(v, top, 'NewlineNode')))
    a, b = nodes_of(v), nodes_of(v.pre)
    own, own0 = eng.named(v.gh('own')), eng.named(v.pre.gh('own'))
    H, H0 = eng.named(v.H(E_KEY)), eng.named(v.pre.H(E_KEY))
    return [('nodes that are not below stay', z3.ForAll([x], Implies(And(x >= 0, Not(chg(x))), And(*[z3.Select(m, x) == z3.Select(k, x) for m, k in zip(a, b)])),
                                                        patterns=[z3.Select(m, x) for m in a])),
            ('arrays of other nodes stay', z3.ForAll([q], Implies(And(q >= 0, q < v.pre.nxt, Not(chg(z3.Select(own0, q)))), z3.Select(H, q) == z3.Select(H0, q)),
                                                     patterns=[z3.Select(H, q)])),
            ('arrays stay with their nodes', z3.ForAll([q], Implies(And(q >= 0, q < v.pre.nxt), z3.Select(own, q) == z3.Select(own0, q)), patterns=[z3.Select(own, q)]))]


def elements_ok(v, s, top=None):
    j = z3.Int('j!eo')
    e = z3.Select(v.eng.named(v.row('parse.Node', s.arr)), j)
    return z3.ForAll([j], Implies(And(s.off <= j, j < s.off + s.len), And(
        e != 0, v.eng.is_node(e), in_tree(v, e), Or(isT(v, e, 'NewlineNode'), depth(e) > depth(top)) if top is not None else T)), patterns=[e])


def layout_fns(prog):
    """Functions of package format from one node to nothing that call themselves and set children."""
    out = []
    for nm, g in sorted(prog.fns.items()):
        if g is None or not nm.startswith('format.') or g.free or g.results or [q['t'] for q in g.params] != ['parse.Node']:
            continue
        calls = [i for b in g.blocks for i in b['ins'] if i['op'] == 'Call']
        if any(i['fn'].get('n') == nm for i in calls if 'invoke' not in i) and any(i.get('invoke') == 'SetChildren' for i in calls):
            out.append(nm)
    return out


MB = 'map[format.Transform]bool'
NSFNS = ['useToRequire', 'removeUnusedRequires', 'enforceNSStyle', 'sortNS', 'findSymbols']


def layout_module(R):
    prog = R.prog
    R.ghosts['own'] = z3.ArraySort(Int, Int)
    R.seq_hook = hook
    new_engine = None

    # SetChildren
    sc = Contract('parse.Node.SetChildren', ['n', 'nodes'])

    def set_post(v):
        n, s = v.a('n'), v.a('nodes')
        out = []
        for k, x in zip(('arr', 'off', 'len', 'cap'), nodes_of(v)):
            key = ('F', 'Nodes', NODES_T, k)
            out.append(x == z3.If(v.eng.in_group(n, 'cont'), z3.Store(v.pre.H(key), n, getattr(s, k)), v.pre.H(key)))
        key = ('F', 'Node', 'parse.Node', '')
        out.append(v.H(key) == z3.If(v.eng.in_group(n, 'wrap'), z3.Store(v.pre.H(key), n, z3.Select(v.pre.row('parse.Node', s.arr), s.off)), v.pre.H(key)))
        return And(*out)

    def own_after(v):
        n, s = v.a('n'), v.a('nodes')
        return z3.If(And(v.eng.in_group(n, 'cont'), s.arr != 0), z3.Store(v.pre.gh('own'), s.arr, n), v.pre.gh('own'))
    sc.req(None, 'the node can hold the children', lambda v: And(v.a('n') != 0, Not(v.eng.in_group(v.a('n'), 'leaf')),
                                                               Implies(v.eng.in_group(v.a('n'), 'wrap'), v.a('nodes').len == 1)))

    def non_nil(v):
        s, j = v.a('nodes'), z3.Int('j!nn')
        e = z3.Select(v.eng.named(v.row('parse.Node', s.arr)), j)
        return z3.ForAll([j], Implies(And(s.off <= j, j < s.off + s.len), e != 0), patterns=[e])
    sc.req(None, 'the children are nodes', non_nil)
    sc.req(None, 'the children the node has are nodes', lambda v: And(
        Implies(v.eng.in_group(v.a('n'), 'wrap'), v.eng.load_key(v.st, ('F', 'Node', 'parse.Node'), 'parse.Node', v.a('n')) != 0),
        Implies(v.eng.in_group(v.a('n'), 'cont'), kids_nonnil(v))))

    def kids_nonnil(v):
        s, j = kids(v, v.a('n')), z3.Int('j!nk')
        e = z3.Select(v.eng.named(v.row('parse.Node', s.arr)), j)
        return z3.ForAll([j], Implies(And(s.off <= j, j < s.off + s.len), e != 0), patterns=[e])
    sc.ens(None, 'the children are those given', set_post)
    sc.ens(None, 'the array belongs to the node', lambda v: v.gh('own') == own_after(v))
    sc.frame('F.Nodes', 'F.Node', 'F.parent')
    sc.ghost_mods = {('gh', 'own')}
    sc.mods_override = {('F', 'Nodes', NODES_T, x) for x in ('arr', 'off', 'len', 'cap')} | {('F', 'Node', 'parse.Node', ''), ('F', 'parent', 'parse.Node', '')}
    R.ifaces[('parse.Node', 'SetChildren')] = sc

    def own_exit(v):
        v.eng.set_gh(v.st, 'own', v.eng.named(own_after(v)))
    for t in prog.node_types:
        nm = '(*%s).SetChildren' % t
        if prog.fns.get(nm) is None:
            continue
        c = R.fn(nm, 'n', 'nodes').tags_only('C08', 'C10')
        c.raises('*')
        c.requires_, c.ensures_ = sc.requires_, sc.ensures_
        c.frame(*sc.frame_fresh)
        c.ghost_mods = set(sc.ghost_mods)
        c.ghost_exit = own_exit
        c.exc('C08', 'never refuses', lambda v: F)

    # ---- the recursive ones
    def clauses(c, nm, n0, rel=keeps):
        c.tags_only('C08')
        c.frame('F.Nodes', 'F.parent', 'E.parse.Node')
        c.ghost_mods = {('gh', 'own')}
        c.axiom('C08', 'readings of sequences', lambda v: theory(v.eng))
        c.req('C08', 'the node is one of the tree', lambda v: And(v.a(n0) != 0, v.eng.is_node(v.a(n0)), in_tree(v, v.a(n0))))
        for i, nm_ in enumerate(TREE):
            c.req('C08', nm_, lambda v, i=i: tree_ok(v)[i][1])
            c.ens('C08', nm_, lambda v, i=i: tree_ok(v)[i][1])
        c.ens('C08', 'no node loses, gains or moves an element, or a line break between elements' if rel is keeps else
              'no node loses, gains or moves an element other than line breaks', lambda v: all_nodes(v, rel))
        for i, nm_ in enumerate(ELSE):
            c.ens('C08', nm_, lambda v, i=i: elsewhere(v, v.a(n0))[i][1])
        c.cand(lambda lv: lcands(lv, lambda lv: lv.eng.top.args[0], rel))

    TREE = ['elements are nodes of the tree', 'wrapped nodes are nodes of the tree', 'every node has its own array',
            'arrays that do not exist belong to no node', 'nodes of the tree exist']
    ELSE = ['nodes that are not below stay', 'arrays of other nodes stay', 'arrays stay with their nodes']

    def lcands(lv, below, rel=keeps):
        eng = lv.eng
        top = eng.top
        out = []
        wrt = lambda v: SView(eng, v.st, top.con, top.args, pre=top)
        if ('gh', 'own') in lv.mods:
            for i, nm_ in enumerate(TREE):
                out.append((nm_, lambda v, i=i: tree_ok(v.sv())[i][1]))
            if below is not None:
                out.append(('breaks kept', lambda v: all_nodes(wrt(v), rel)))
                for i, nm_ in enumerate(ELSE):
                    out.append((nm_, lambda v, i=i: elsewhere(wrt(v), below(lv))[i][1]))
        out += array_candidates(lv, 'parse.Node')
        # elements of the slices at hand
        for r, ty in sorted(regs_used(lv).items()):
            s = lv.pre.env.get((lv.fr.depth, r))
            if isinstance(s, Slice) and ty == NODES_T and ('gh', 'own') in lv.mods:
                out.append(('the array of %s stays with its node' % r, lambda v, s=s: z3.Select(v.sv().gh('own'), s.arr) == z3.Select(v.pre_sv().gh('own'), s.arr)))
        for ref, t in lv.vars['slice']:
            if t != NODES_T:
                continue
            def same_reading(v, ref=ref, f=keeps):
                return f(reading(v.pre_sv(), v.pv.get(ref)), reading(v.sv(), v.get(ref)))
            out.append(('elements of %s are nodes of the tree' % (ref[1],), lambda v, ref=ref: elements_ok(v.sv(), v.get(ref), top.args[0] if below else None)))
            for ri, ti in lv.vars['int']:
                out.append(('%s ends in a break if %s' % (ref[1], ri[1]), lambda v, ref=ref, ri=ri: Implies(
                    v.get(ri) > 0, brk(reading(v.sv(), v.get(ref))) == reading(v.sv(), v.get(ref)))))
            s0 = lv.pre.env.get(ref[1]) if ref[0] == 'env' else None
            if isinstance(s0, Slice):
                out.append(('%s reads the same but for breaks at the end' % (ref[1],), lambda v, ref=ref, s0=s0: keeps(
                    reading(v.pre_sv(), s0), reading(v.sv(), v.get(ref)))))
            for r, ty in sorted(regs_used(lv).items()):
                s = lv.pre.env.get((lv.fr.depth, r))
                if isinstance(s, Slice) and ty == NODES_T:
                    for ri, ti in lv.vars['int']:
                        out.append(('%s reads as %s up to %s' % (ref[1], r, ri[1]), lambda v, ref=ref, s=s, ri=ri:
                            pfold(START, v.eng.named(v.sv().row('parse.Node', s.arr)), s.off, v.get(ri) + 1) == reading(v.sv(), v.get(ref))))
        return out

    R.layout = dict(lcands=lcands, TREE=TREE)
    for nm in layout_fns(prog):
        c = R.fn(nm, prog.fns[nm].params[0]['n'])
        clauses(c, nm, prog.fns[nm].params[0]['n'])

    # ---- the ones that move a line break past an element
    same_words = lambda a, b: word(a) == word(b)
    for nm, ty in (('fixDefnArglist', 'VectorNode'), ('fixDefmethodDispatchVal', 'KeywordNode')):
        g = prog.fns.get('format.' + nm)
        if g is None:
            continue
        p0 = g.params[0]['n']
        c = R.fn('format.' + nm, p0)
        clauses(c, nm, p0, same_words)

        def moved(v, p0=p0, ty=ty):
            n = v.a(p0)
            arr, off, ln, cap = [z3.Select(x, n) for x in nodes_of(v.pre)]
            r0 = v.eng.named(z3.Select(v.eng.named(v.pre.H(E_KEY)), arr))
            e = [v.eng.named(z3.Select(r0, off + i)) for i in range(5)]
            split(v.eng, r0, off + 2)
            for i in (2, 3):
                cut(v.eng, r0, off + i)
            past = pfold(brk(elm(pfold(START, r0, off, I(2)), e[3])), r0, off + 4, ln - 4)
            return Implies(And(z3.Select(T_, n), v.eng.in_group(n, 'cont')), Or(keeps(reading_of(v.pre, n), reading_of(v, n)), And(
                ln >= 4, isT(v, e[2], 'NewlineNode'), isT(v, e[3], ty), reading_of(v, n) == past)))
        c.ens('C08', 'a line break is moved only past the %s after the name' % {'VectorNode': 'vector', 'KeywordNode': 'keyword'}[ty], moved)

        def others(v, p0=p0):
            n = z3.Int('n!a')
            t = z3.Select(T_, n)
            return z3.ForAll([n], Implies(And(t, n != v.a(p0), v.eng.in_group(n, 'cont')), keeps(reading_of(v.pre, n), reading_of(v, n))), patterns=[t])
        c.ens('C08', 'no other node changes', others)

    # ---- all of them
    trans = {n[len('format.Transform'):]: I(int(x)) for n, x in prog.consts.items() if n.startswith('format.Transform')}
    MOVES = ('FixDefnArglistNewline', 'FixDefmethodDispatchValNewline')
    NS = ('UseToRequire', 'RemoveUnusedRequires', 'EnforceNSStyle', 'SortImportRequire')
    LAYOUT_MODS = {('F', 'Nodes'), ('F', 'Node'), ('F', 'Roots'), ('F', 'parent'), ('E', 'parse.Node'), ('gh', 'own')}

    def dead(eng, con, g):
        """Transforms of the ns form, which are off: they must not be called."""
        out, seen, work = {}, set(), [g]
        if 'C08' not in eng.tags or con.name != 'format.applyTransforms':
            return out
        while work:
            for n in eng.static_callees(work.pop()):
                h = prog.fns.get(n)
                if n in seen or h is None or not n.split('.')[0].lstrip('(*').startswith('format'):
                    continue
                seen.add(n)
                if any(q['t'] == MB for q in h.params):
                    work.append(h)
                elif any(tuple(k[:2]) not in LAYOUT_MODS for k in eng.fn_mods(n) if k[0] != 'A'):
                    d = Contract(n, [q['n'] for q in h.params])
                    d.opaque, d.mods_override = True, set()
                    d.req('C08', 'the transforms of the ns form are off', lambda v: F)
                    out[n] = d
        return out
    R.dead_rules.append(dead)

    c = R.fn('format.applyTransforms', 't', 'transforms').tags_only('C08')
    c.raises('*')
    c.axiom('C08', 'readings of sequences', lambda v: theory(v.eng))
    c.frame('F.Nodes', 'F.parent', 'E.parse.Node', 'F.Roots')
    c.ghost_mods = {('gh', 'own')}
    roots = lambda v: v.F(v.a('t'), 'parse.Tree', 'Roots')
    on = lambda v, n: z3.Select(z3.Select(v.H(('MV', MB, '')), v.a('transforms')), trans[n])
    c.req('C08', 'there is a tree', lambda v: v.a('t') != 0)
    c.req('C08', 'the transforms of the ns form are off', lambda v: And(v.a('transforms') != 0, *[
        And(z3.Select(v.dom(MB, v.a('transforms')), trans[n]), Not(on(v, n))) for n in NS]))
    c.req('C08', 'the roots are a sequence of nodes of the tree', lambda v: And(
        elements_ok(v, roots(v)), z3.Select(v.gh('own'), roots(v).arr) == 0, roots(v).len >= 0, roots(v).off >= 0, roots(v).arr < v.nxt, roots(v).arr >= 0))
    for i, nm_ in enumerate(TREE):
        c.req('C08', nm_, lambda v, i=i: tree_ok(v)[i][1])
    c.ens('C08', 'no node loses, gains or moves an element other than line breaks', lambda v: all_nodes(v, same_words))
    c.ens('C08', 'line breaks between elements stay, but those moved past an argument list or dispatch value', lambda v: Implies(
        And(*[And(z3.Select(v.pre.dom(MB, v.a('transforms')), trans[n]), Not(on(v.pre, n))) for n in MOVES]), all_nodes(v, keeps)))
    c.ens('C08', 'the top level keeps its forms, comments and the line breaks between them', lambda v: keeps(reading(v.pre, roots(v.pre)), reading(v, roots(v))))

    def acands(lv):
        if lv.eng.top.con.name != 'format.applyTransforms':
            return []
        eng, top = lv.eng, lv.eng.top
        wrt = lambda v: SView(eng, v.st, top.con, top.args, pre=top)
        moves = And(*[And(z3.Select(top.dom(MB, top.a('transforms')), trans[n]), Not(on(top, n))) for n in MOVES])
        return [('words kept', lambda v: all_nodes(wrt(v), same_words)),
                ('breaks kept without moves', lambda v: Implies(moves, all_nodes(wrt(v), keeps))),
                ('transforms stay', lambda v: And(*[And(v.sv().H(k) == top.H(k)) for k in (('MV', MB, ''), ('MD', MB))])),
                ('the roots belong to no node', lambda v: z3.Select(v.sv().gh('own'), roots(top).arr) == 0),
                ('the roots stay', lambda v: And(*[getattr(roots(wrt(v)), x) == getattr(roots(top), x) for x in ('arr', 'off', 'len')])),
                ('the roots array stays', lambda v: wrt(v).row('parse.Node', roots(top).arr) == top.row('parse.Node', roots(top).arr))] + lcands(lv, None)
    c.cand(acands)
