"""Contracts of docstrings (C17): which strings are docstrings, what aligning one may change."""
import z3
from terms import *
from contracts import *
from engine import Slice, SView
from spec_style import isT, val_of, kids, pf
from spec_print import PR, MDOC, aligned, put, text, ROW, NODES_T

STR_ROW = z3.ArraySort(Int, Str)
linecount = fn('linecount', Str, Int)
line = fn('line', Str, Int, Str)
core = fn('core', Str, Str)                # the text without the white space at its edges
nonl = fn('nonl', Str, Bool)               # holds no line break
blanks = fn('blanks', Str, Bool)           # holds white space only
cut = fn('cut', Str, Int, Bool)            # s may be cut there: between two characters
trimmedr = fn('trimmed_right', Str, Str)   # the text without the white space at its right edge
docof = fn('docstring_of', Int, Int, Bool)         # form, string node
rootdoc = fn('docstring_of_a_root', ROW, Int, Int, Int, Bool)

DOC_FORMS = ('ns', 'def', 'defn', 'defmacro', 'defmulti')


def text_facts(eng):
    """True facts about lines and white space."""
    if getattr(eng, '_text_facts', False):
        return
    eng._text_facts = True
    a, b = z3.Consts('a!t b!t', Str)
    i, j, k = z3.Ints('i!t j!t k!t')
    empty = S.lit('')
    eng.fact(z3.ForAll([a, b], nonl(S.cat_(a, b)) == And(nonl(a), nonl(b)), patterns=[nonl(S.cat_(a, b))]))
    eng.fact(z3.ForAll([a, b], Implies(And(blanks(a), blanks(b)), blanks(S.cat_(a, b))), patterns=[blanks(S.cat_(a, b))]))
    eng.fact(z3.ForAll([a, b], Implies(blanks(a), core(S.cat_(a, b)) == core(b)), patterns=[core(S.cat_(a, b))]))
    eng.fact(z3.ForAll([a, b], Implies(blanks(b), core(S.cat_(a, b)) == core(a)), patterns=[core(S.cat_(a, b))]))
    eng.fact(z3.ForAll([a], Implies(blanks(a), core(a) == empty), patterns=[core(a)]))
    for x in ('', ' ', '\t', '\n'):
        eng.fact(And(blanks(S.lit(x)), nonl(S.lit(x)) == (x != '\n'), core(S.lit(x)) == empty))
    eng.fact(z3.ForAll([a, i], And(Implies(blanks(a), blanks(S.repeat_(a, i))), Implies(nonl(a), nonl(S.repeat_(a, i)))),
                       patterns=[S.repeat_(a, i)]))
    eng.fact(z3.ForAll([i], And(nonl(S.fromrune(i)) == (i != 10), Implies(Or(i == 32, i == 9), blanks(S.fromrune(i)))), patterns=[S.fromrune(i)]))
    eng.fact(z3.ForAll([a, i, j], Implies(nonl(a), nonl(S.sub_(a, i, j))), patterns=[nonl(S.sub_(a, i, j))]))
    # cutting off white space at the right edge
    eng.fact(z3.ForAll([a, j], Implies(And(cut(a, j), S.slen(trimmedr(a)) <= j, j <= S.slen(a)), core(S.sub_(a, I(0), j)) == core(a)),
                       patterns=[S.sub_(a, I(0), j)]))
    eng.fact(z3.ForAll([a], And(core(trimmedr(a)) == core(a), S.slen(trimmedr(a)) <= S.slen(a), Implies(nonl(a), nonl(trimmedr(a))),
                                cut(a, S.slen(trimmedr(a)))), patterns=[trimmedr(a)]))


def is_fn(eng, v, name):
    c = ival(v) if isinstance(v, z3.ExprRef) else None
    return c is not None and eng.func_names.get(c) == name


def join_facts(eng, st, s, r):
    row = eng.named(z3.Select(eng.comp(st, ('E', 'string', '')), s.arr))
    j = z3.Int('j!jo')
    good = z3.ForAll([j], Implies(And(0 <= j, j < s.len), nonl(z3.Select(row, s.off + j))), patterns=[z3.Select(row, s.off + j)])
    g = eng.fresh('one_line_each', Bool)
    w = eng.fresh('w', Int)
    # g: every element is one line (w is one that is not, otherwise)
    eng.fact(And(Implies(g, good), Implies(Not(g), And(0 <= w, w < s.len, Not(nonl(z3.Select(row, s.off + w)))))))
    eng.fact(Implies(And(g, s.len >= 1), And(linecount(r) == s.len, z3.ForAll([j], Implies(And(0 <= j, j < s.len), line(r, j) == z3.Select(row, s.off + j)),
                                                                              patterns=[line(r, j)]))))


def doc_externs(R):
    E = R.externs

    def split_(eng, fr, st, a, ins):
        text_facts(eng)
        n, arr = eng.fresh('n', Int), eng.alloc_ref(st)
        key = ('E', 'string', '')
        row = eng.fresh('row', STR_ROW)
        st.comps[key] = z3.Store(eng.comp(st, key), arr, row)
        eng.fact(And(n >= 0, Implies(S.len(a[1]) > 0, n >= 1)))
        if S.value(a[1]) == b'\n':
            j = z3.Int('j!sp')
            eng.fact(And(n == linecount(a[0]), n >= 1, z3.ForAll([j], Implies(And(0 <= j, j < n), And(
                z3.Select(row, j) == line(a[0], j), nonl(z3.Select(row, j)))), patterns=[z3.Select(row, j)])))
        return Slice(arr, I(0), n, n, 'string')
    E['strings.Split'] = Ext(split_, {('E', 'string', '')})

    def join(eng, fr, st, a, ins):
        text_facts(eng)
        s = eng.esc(st, a[0])
        r = eng.fresh('joined', Str)
        if S.value(a[1]) == b'\n':
            join_facts(eng, st, s, r)
        return r
    E['strings.Join'] = Ext(join)

    def index_func(eng, fr, st, a, ins):
        r = eng.fresh('i', Int)
        eng.fact(And(r >= -1, z3.If(S.len(a[0]) > 0, r < S.len(a[0]), r == -1)))
        return r
    E['strings.IndexFunc'] = Ext(index_func)

    def trim(eng, s, left, right, space):
        text_facts(eng)
        if right and not left and space:
            return trimmedr(s)
        r = eng.fresh('trimmed', Str)
        eng.fact(And(S.slen(r) <= S.len(s), Implies(nonl(s), nonl(r))))
        if space:
            eng.fact(core(r) == core(s))
        return r

    def trim_func(l, r):
        def f(eng, fr, st, a, ins):
            return trim(eng, a[0], l, r, is_fn(eng, a[1], 'unicode.IsSpace'))
        return f
    for n, l, r in (('Left', 1, 0), ('Right', 0, 1), ('', 1, 1)):
        E['strings.Trim%sFunc' % n] = Ext(trim_func(l, r))

        def trim_set(eng, fr, st, a, ins, l=l, r=r):
            v = S.value(a[1])
            t = trim(eng, a[0], 1, 1, v is not None and all(c in b' \t\r\f\v' for c in v))
            return t
        E['strings.Trim' + n] = Ext(trim_set)
    E['strings.TrimSpace'] = Ext(lambda eng, fr, st, a, ins: trim(eng, a[0], 1, 1, True))

    def decode(eng, fr, st, a, ins):
        text_facts(eng)
        s = a[0]
        r, w = eng.fresh('r', Int), eng.fresh('w', Int)
        eng.fact(And(w >= 0, w <= 4, w <= S.len(s), (w == 0) == (S.len(s) == 0), r >= 0, r <= 0x10FFFF))
        if z3.is_app(s) and s.decl().eq(S.sub_):
            a0, lo, hi = s.children()
            eng.fact(Implies(And(cut(a0, lo), hi == S.len(a0)), cut(a0, lo + w)))
            eng.fact(Implies(cut(a0, lo), cut(a0, z3.simplify(lo + w))))
        return [r, w]
    E['unicode/utf8.DecodeRuneInString'] = E['utf8.DecodeRuneInString'] = Ext(decode)


def doc_module(R):
    doc_externs(R)
    pdocs = lambda v: v.dom(MDOC, pf(v, v.a('p'), 'docstrings'))

    # ---- what aligning changes
    c = R.fn(PR + 'alignDocstring', 'p', 'docstring', 'w').tags_only('C17')
    c.axiom('C17', 'the indentation character is a space or a tab', lambda v: Or(pf(v, v.a('p'), 'IndentChar') == 32, pf(v, v.a('p'), 'IndentChar') == 9))
    c.axiom('C17', 'facts about text', lambda v: text_facts(v.eng) or T)
    c.ens('C17', 'the aligned text', lambda v: v.ret == aligned(v.a('docstring'), v.a('w'), pf(v, v.a('p'), 'IndentChar')), trusted=True)
    c.ens('C17', 'the number of lines is unchanged', lambda v: linecount(v.ret) == linecount(v.a('docstring')))
    c.ens('C17', 'the first line is unchanged', lambda v: line(v.ret, I(0)) == line(v.a('docstring'), I(0)))

    def same_core(v):
        j = z3.Int('j!sc')
        return z3.ForAll([j], Implies(And(0 <= j, j < linecount(v.ret)), core(line(v.ret, j)) == core(line(v.a('docstring'), j))), patterns=[line(v.ret, j)])
    c.ens('C17', 'lines change at their edges only', same_core)
    c.frame()

    def line_cands(lv):
        top = lv.eng.top
        if top.con.name != PR + 'alignDocstring':
            return []
        doc = top.a('docstring')
        out = []

        def good(v, s, n):
            j, k = z3.Ints('j!al k!al')
            row = v.eng.named(v.sv().row('string', s.arr))
            e = z3.Select(row, k)
            f = [nonl(e), core(e) == core(line(doc, j)), Implies(j == 0, e == line(doc, I(0)))]
            import os
            if os.environ.get('DD'):
                f = [f[int(os.environ['DD'])]]
            return And(z3.ForAll([k], Implies(And(s.off <= k, k < s.off + n), z3.substitute(And(*f), (j, k - s.off))), patterns=[e]))
        out += array_candidates(lv, 'string')
        ints = [r for r, t in lv.vars['int']]
        for r, t in lv.vars['slice']:
            if t != '[]string':
                continue
            out.append(('the lines so far', lambda v, r=r: good(v, v.get(r), v.get(r).len)))
            for i in ints:
                for d in (1, 2):
                    out.append(('a line each', lambda v, r=r, i=i, d=d: v.get(r).len == v.get(i) + d))
        seen = set()
        for n, x in sorted(lv.pre.env.items(), key=str):
            if isinstance(x, Slice) and x.elem == 'string' and x.arr.get_id() not in seen:
                seen.add(x.arr.get_id())
                for i in ints:
                    for d in (0, 1, 2):
                        out.append(('the lines so far', lambda v, x=x, i=i, d=d: And(good(v, x, v.get(i) + d))))
        return out
    R.cands.append(lambda lv: line_cands(lv) if 'C17' in lv.eng.tags else [])

    # ---- which strings are docstrings
    K, M = fn('first_after_name', Int, Int), fn('next_after_docstring', Int, Int)

    def child(v, n, i):
        ks = kids(v, n)
        return z3.Select(v.row('parse.Node', ks.arr), ks.off + i)

    def positions(v, n):
        """K: the first child after the second that is no newline; M: the next form after it."""
        ln = kids(v, n).len
        j = z3.Int('j!po')
        row = v.eng.named(v.row('parse.Node', kids(v, n).arr))
        at = lambda i: z3.Select(row, kids(v, n).off + i)
        nl = lambda i: isT(v, at(i), 'NewlineNode')
        skip = lambda i: Or(nl(i), isT(v, at(i), 'CommentNode'), isT(v, at(i), 'ReaderDiscardNode'))
        k, m = K(n), M(n)
        off = kids(v, n).off
        e = z3.Select(row, j)       # j: from the start of the array
        nle = isT(v, e, 'NewlineNode')
        skipe = Or(nle, isT(v, e, 'CommentNode'), isT(v, e, 'ReaderDiscardNode'))
        return Implies(ln >= 3, And(2 <= k, k <= ln, Implies(k < ln, And(Not(nl(k)), k < m, m <= ln)), Implies(And(k < ln, m < ln), Not(skip(m))),
                       z3.ForAll([j], And(Implies(And(off + 2 <= j, j < off + k), nle), Implies(And(off + k < j, j < off + m, k < ln), skipe)), patterns=[e])))

    def is_doc(v, n, s):
        ks = kids(v, n)
        h = child(v, n, I(0))
        return And(isT(v, n, 'ListNode'), ks.len >= 3, isT(v, h, 'SymbolNode'), Or(*[val_of(v, h) == S.lit(x) for x in DOC_FORMS]),
                   isT(v, child(v, n, I(1)), 'SymbolNode'), K(n) < ks.len, M(n) < ks.len, s == child(v, n, K(n)), isT(v, s, 'StringNode'))

    c = R.fn(PR + 'markDocstrings', 'p', 'n').tags_only('C17')
    c.raises('*')
    c.axiom('C17', 'the printer was made by NewPrinter, there is a form', lambda v: And(v.a('n') != 0, pf(v, v.a('p'), 'docstrings') != 0))
    c.axiom('C17', 'the children of the form', lambda v: positions(v, v.a('n')) if top_is(v, 'markDocstrings') else T)
    s = z3.Int('s!do')
    # the definition of docstring_of, for the form at hand
    c.axiom('C17', 'docstring_of (definition)', lambda v: z3.ForAll([s], docof(v.a('n'), s) == is_doc(v, v.a('n'), s), patterns=[docof(v.a('n'), s)])
            if top_is(v, 'markDocstrings') else T)

    def marked(v):
        s = z3.Int('s!ma')
        n = v.a('n')
        d, d0 = v.eng.named(pdocs(v)), v.eng.named(pdocs(v.pre))
        return z3.ForAll([s], Implies(z3.Select(d, s), Or(z3.Select(d0, s), docof(n, s))), patterns=[z3.Select(d, s)])
    c.ens('C17', 'only the docstring of the form is marked', marked)
    c.frame('M.' + MDOC)

    def top_is(v, nm):
        return v.eng.top.con.name == PR + nm

    def mark_cands(lv):
        top = lv.eng.top
        if top.con.name != PR + 'markDocstrings':
            return []
        n = top.a('n')
        out = []
        for r, t in lv.vars['int']:
            for q, t2 in lv.vars['ref']:
                for d in (0, 2):
                    at = lambda v, r=r, d=d: v.get(r) + d
                    out.append(('no docstring yet', lambda v, at=at, q=q: Implies(v.get(q) == 0, at(v) < K(n))))
                    out.append(('the docstring', lambda v, at=at, q=q: Implies(v.get(q) != 0, And(
                        K(n) <= at(v), at(v) < M(n), v.get(q) == child(top, n, K(n)), isT(top, v.get(q), 'StringNode')))))
        return out
    R.cands.append(lambda lv: mark_cands(lv) if 'C17' in lv.eng.tags else [])

    # ---- what is written
    def shrink(v):
        s = z3.Int('s!sh')
        d, d0 = v.eng.named(pdocs(v)), v.eng.named(pdocs(v.pre))
        return z3.ForAll([s], Implies(z3.Select(d, s), z3.Select(d0, s)), patterns=[z3.Select(d, s)])

    for nm, ps in (('printNode', ('p', 'node', 'w')), ('printSequence', ('p', 'nodes', 'w', 'style'))):
        c = R.fn(PR + nm, *ps).tags_only('C17')
        c.raises('*')
        c.axiom('C17', 'the printer was made by NewPrinter', lambda v: pf(v, v.a('p'), 'docstrings') != 0)
        c.ghost_mods = {('gh', 'out'), ('gh', 'seq_end')}
        c.ens('C17', 'no string becomes a docstring while printing', shrink)
        c.cand(lambda lv: [('docstrings only go', lambda v: SHR(v.sv(), lv.eng.top))] if lv.eng.top.con.name == PR + 'printSequence' else [])
        if nm == 'printNode':
            def written(v):
                n, o = v.a('node'), v.pre.gh('out')
                tx = text(v.pre, n, 'Val')
                doc = z3.Select(pdocs(v.pre), n)
                al = aligned(tx, v.a('w'), pf(v.pre, v.a('p'), 'IndentChar'))
                return Implies(isT(v, n, 'StringNode'), v.gh('out') == z3.If(doc, put(v.eng, o, '"', al, '"'), put(v.eng, o, '"', tx, '"')))
            c.ens('C17', 'a string that is no docstring is written as it is, a docstring as aligned', written)
        else:
            def only_root_docs(v):
                if not top_is(v, 'PrintTree'):
                    return T
                s = z3.Int('s!or')
                x = v.a('nodes')
                row = v.eng.named(v.row('parse.Node', x.arr))
                d = v.eng.named(pdocs(v))
                return z3.ForAll([s], Implies(z3.Select(d, s), rootdoc(row, x.off, x.len, s)), patterns=[z3.Select(d, s)])
            c.req('C17', 'the docstrings are those of top-level forms', only_root_docs)

    def SHR(v, top):
        s = z3.Int('s!sr')
        d, d0 = v.eng.named(v.dom(MDOC, pf(v, top.a('p'), 'docstrings'))), v.eng.named(pdocs(top))
        return z3.ForAll([s], Implies(z3.Select(d, s), z3.Select(d0, s)), patterns=[z3.Select(d, s)])

    # ---- the whole tree
    c = R.fn(PR + 'PrintTree', 'p', 't').tags_only('C17')
    c.raises('*')
    s0 = z3.Int('s!e')
    c.axiom('C17', 'the printer was made by NewPrinter and has no docstrings left', lambda v: And(v.a('t') != 0, pf(v, v.a('p'), 'docstrings') != 0, z3.ForAll(
        [s0], Not(z3.Select(pdocs(v), s0)), patterns=[z3.Select(v.eng.named(pdocs(v)), s0)])))

    def rule(v):
        row = z3.Const('row!rd', ROW)
        off, ln, x, s = z3.Ints('off!rd len!rd x!rd s!rd')
        e = z3.Select(row, x)
        return z3.ForAll([row, off, ln, x, s], Implies(And(off <= x, x < off + ln, docof(e, s)), rootdoc(row, off, ln, s)),
                         patterns=[z3.MultiPattern(docof(e, s), rootdoc(row, off, ln, s))])
    c.axiom('C17', 'docstring_of_a_root (definition)', rule)

    def tree_cands(lv):
        top = lv.eng.top
        if top.con.name != PR + 'PrintTree':
            return []

        def inv(v):
            sv = v.sv()
            rs = sv.F(top.a('t'), 'parse.Tree', 'Roots')
            s = z3.Int('s!ti')
            row = lv.eng.named(sv.row('parse.Node', rs.arr))
            d = lv.eng.named(sv.dom(MDOC, pf(sv, top.a('p'), 'docstrings')))
            return z3.ForAll([s], Implies(z3.Select(d, s), rootdoc(row, rs.off, rs.len, s)), patterns=[z3.Select(d, s)])

        def none(v):
            sv = v.sv()
            s = z3.Int('s!tn')
            d = lv.eng.named(sv.dom(MDOC, pf(sv, top.a('p'), 'docstrings')))
            return z3.ForAll([s], Not(z3.Select(d, s)), patterns=[z3.Select(d, s)])
        return [('docstrings of top-level forms', inv), ('no docstrings yet', none)]
    R.cands.append(lambda lv: tree_cands(lv) if 'C17' in lv.eng.tags else [])

    for nm, mp in (('markThreadFirsts', ('map[parse.Node]struct{}',)), ('markRequires', ('map[string]string',))):
        c = R.fn(PR + nm, 'p', 'n').tags_only('C17')
        c.raises('*')
        c.frame(*['M.' + m for m in mp])

    c = R.fn('format.NewPrinter', 'w').tags_only('C17')
    c.ens('C17', 'a new printer has no docstrings', lambda v: And(v.ret != 0, pf(v, v.ret, 'docstrings') != 0, z3.ForAll(
        [s0], Not(z3.Select(v.dom(MDOC, pf(v, v.ret, 'docstrings')), s0)))))
