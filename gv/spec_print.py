"""Contracts of printing: what is written for a tree (C07), string literals (C17)."""
import z3
from terms import *
from contracts import *
from engine import Slice, StructV, SView
from spec_style import isT, val_of, kids, pf

NODES_T = '[]parse.Node'
MDOC = 'map[*parse.StringNode]struct{}'
PR = '(*format.Printer).'
ROW = z3.ArraySort(Int, Int)
TAGS = ('C07', 'C17')

# Output texts are built by put: a text and what was written after it.
put_ = fn('put', Str, Str, Str)
blank_ = fn('put_blanks', Str, Str, Bool)           # o, x: x is o followed by indentation
# Renderings: the least relations with the rules below; o is the output before, b after.
rendered = fn('rendered', Int, Str, Str, Bool)                      # node, o, b
elements = fn('rendered_elements', ROW, Int, Int, Str, Str, Bool)   # row, offset, k, o, b: the first k elements
sequence = fn('rendered_sequence', ROW, Int, Int, Str, Str, Bool)   # row, offset, n, o, b: the sequence and what ends it
aligned = fn('aligned_docstring', Str, Int, Int, Str)               # text, column, indentation character

PREFIX = {'DerefNode': '@', 'ReaderDiscardNode': '#_', 'ReaderEvalNode': '#=', 'MetadataNode': '^', 'QuoteNode': "'",
          'SyntaxQuoteNode': '`', 'UnquoteNode': '~', 'UnquoteSpliceNode': '~@'}
BRACKETS = {'FnLiteralNode': ('#(', ')'), 'ReaderCondNode': ('#?(', ')'), 'ReaderCondSpliceNode': ('#?@(', ')'), 'ListNode': ('(', ')'),
            'MapNode': ('{', '}'), 'SetNode': ('#{', '}'), 'VectorNode': ('[', ']')}
TEXT = {'CharacterNode': ('Text', '', ''), 'CommentNode': ('Text', '', ''), 'KeywordNode': ('Val', '', ''), 'NumberNode': ('Val', '', ''),
        'RegexNode': ('Val', '#"', '"'), 'SymbolNode': ('Val', '', ''), 'VarQuoteNode': ('Val', "#'", '')}


def put(eng, o, *ss):
    """The output o followed by the texts ss, in a normal form."""
    for s in ss:
        s = S.lit(s) if isinstance(s, str) else s
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE:
            o = z3.If(s.arg(0), put(eng, o, s.arg(1)), put(eng, o, s.arg(2)))
            continue
        for x in S.parts(s):
            v = S.value(x)
            if v is not None:
                for b in v:
                    o = put_(o, S.lit(bytes([b])))
                continue
            n = put_(o, x)
            if z3.is_app(x) and x.decl().eq(S.repeat_) and hasattr(eng, 'gh_indent'):
                eng.fact(Implies(x.arg(0) == S.fromrune(indent_char(eng)), blank_(o, n)))
            o = n
    return o


def indent_char(eng):
    return eng.gh_indent


def text(v, n, f):
    return v.eng.load_key(v.st, ('F', f, 'string'), 'string', n)


def node_out(v, n, o, w):
    """What printing n means: the rules of 'rendered', with the ends of nested renderings at hand."""
    eng, out = v.eng, v.gh('out')
    c = []
    for t, (f, a, b) in TEXT.items():
        c.append(Implies(isT(v, n, t), out == put(eng, o, a, text(v, n, f), b)))
    bv = eng.load_key(v.st, ('F', 'Val', 'bool'), 'bool', n)
    c.append(Implies(isT(v, n, 'BoolNode'), out == z3.If(bv, put(eng, o, 'true'), put(eng, o, 'false'))))
    c.append(Implies(isT(v, n, 'NilNode'), out == put(eng, o, 'nil')))
    s = text(v, n, 'Val')
    disp = And(S.len(s) > 0, Or(*[S.char(s, I(0)) == ord(x) for x in '_=?!<']))
    c.append(Implies(isT(v, n, 'TagNode'), out == z3.If(disp, put(eng, o, '# ', s), put(eng, o, '#', s))))
    doc = v.pre.mget(MDOC, pf(v.pre, v.a('p'), 'docstrings'), n)[1]
    al = aligned(s, w, pf(v.pre, v.a('p'), 'IndentChar'))
    c.append(Implies(isT(v, n, 'StringNode'), out == z3.If(doc, put(eng, o, '"', al, '"'), put(eng, o, '"', s, '"'))))
    inner = eng.load_key(v.st, ('F', 'Node', 'parse.Node'), 'parse.Node', n)
    for t, p in PREFIX.items():
        x = put(eng, o, p)
        if t == 'UnquoteNode':
            x = z3.If(isT(v, inner, 'DerefNode'), put(eng, o, p, ' '), x)
        c.append(Implies(isT(v, n, t), rendered(inner, x, out)))
    ks = kids(v, n)
    row = eng.named(v.row('parse.Node', ks.arr))
    for t, (a, b) in BRACKETS.items():
        x = put(eng, o, a)
        if t == 'MapNode':
            ns = text(v, n, 'Namespace')
            x = z3.If(ns == S.lit(''), x, put(eng, o, '#', ns, '{'))
        c.append(Implies(isT(v, n, t), And(sequence(row, ks.off, ks.len, x, v.gh('seq_end')), out == put(eng, v.gh('seq_end'), b))))
    return And(*c)


def known(v, n):
    return Or(*[isT(v, n, t) for t in list(PREFIX) + list(BRACKETS) + list(TEXT) + ['BoolNode', 'NilNode', 'TagNode', 'StringNode']])


def seq_rules(v, row, off, n, o, nested):
    """The rules of 'rendered_elements' and 'rendered_sequence' for one sequence, the output being o before it."""
    eng = v.eng
    k, k1, e = z3.Ints('k!r k1!r e!r')
    a, x, b = [z3.Const(c + '!r', Str) for c in 'axb']
    at = lambda i: z3.Select(row, off + i)
    nl, cm = lambda i: isT(v, at(i), 'NewlineNode'), lambda i: isT(v, at(i), 'CommentNode')
    el = lambda k, b: elements(row, off, k, o, b)
    line = lambda o: put_(o, S.lit('\n'))
    start = z3.If(k == 0, x == a, z3.If(nl(k - 1), blank_(a, x), z3.If(cm(k - 1), blank_(line(a), x), x == put_(a, S.lit(' ')))))
    return And(
        el(I(0), o),
        # a newline is a line break
        z3.ForAll([k, k1, a, b], Implies(And(el(k, a), k1 == k + 1, 0 <= k, k < n, nl(k), b == line(a)), el(k1, b)),
                  patterns=[z3.MultiPattern(el(k, a), el(k1, b))]),
        # any other element begins after indentation on a new line, after one space on the same; a comment ends its line
        z3.ForAll([k, k1, e, a, x, b], Implies(And(el(k, a), k1 == k + 1, 0 <= k, k < n, e == at(k), Not(nl(k)), start, rendered(e, x, b)), el(k1, b)),
                  patterns=[z3.MultiPattern(el(k, a), rendered(e, x, b), el(k1, b))]),
        # the end: indentation if a line was begun; a comment ends its line, unless the sequence is the whole file
        z3.ForAll([a, b], Implies(And(el(n, a), z3.If(And(n > 0, nl(n - 1)), blank_(a, b), z3.If(And(n > 0, cm(n - 1), nested), blank_(line(a), b), a == b))),
                                  sequence(row, off, n, o, b)), patterns=[z3.MultiPattern(el(n, a), sequence(row, off, n, o, b))]))


def typed_nodes(v):
    """Elements and wrapped nodes are nodes of the known kinds; what a prefix applies to is no newline."""
    n, j = z3.Int('n!k'), z3.Int('j!k')
    s = [v.eng.named(v.H(('F', 'Nodes', NODES_T, pt))) for pt in ('arr', 'off', 'len')]
    arr, off, ln = [z3.Select(x, n) for x in s]
    e = z3.Select(z3.Select(v.eng.named(v.H(('E', 'parse.Node', ''))), arr), j)
    w = z3.Select(v.eng.named(v.H(('F', 'Node', 'parse.Node', ''))), n)
    return And(z3.ForAll([n, j], Implies(And(v.eng.in_group(n, 'cont'), off <= j, j < off + ln), Or(known(v, e), isT(v, e, 'NewlineNode'))),
                         patterns=[z3.MultiPattern(e, arr)]),
               z3.ForAll([n], Implies(v.eng.in_group(n, 'cont'), And(arr < v.nxt, arr >= 0)), patterns=[arr]),
               z3.ForAll([n], Implies(v.eng.in_group(n, 'wrap'), known(v, w)), patterns=[w]))


def elements_known(v, s):
    j = z3.Int('j!l')
    row = v.eng.named(v.row('parse.Node', s.arr))
    e = z3.Select(row, j)
    return z3.ForAll([j], Implies(And(s.off <= j, j < s.off + s.len), Or(known(v, e), isT(v, e, 'NewlineNode'))), patterns=[e])


def print_module(R):
    R.ghosts['out'] = Str
    R.ghosts['seq_end'] = Str
    CALLED = (PR + 'printNode', PR + 'printSequence')

    def rule(eng, name, g):
        if not (eng.tags & set(TAGS)) or not name.split('.')[0].lstrip('(*').startswith('format') or g.free or uses_recover(g):
            return False
        if eng.top.con.name == 'format.applyTransforms':
            return True
        if eng.top.con.name not in (PR + 'printNode', PR + 'printSequence', PR + 'PrintTree'):
            return False
        return ('gh', 'out') not in eng.fn_mods(name) and not name.endswith(('.fmtErrf', '.isKeywordNode', '.threadFirstTransform'))

    R.opaque_rules.append(rule)

    for nm in ('writeString', 'writeByte'):
        c = R.fn('(*format.bufWriter).' + nm, 'bw', 's')
        c.tags_only('C07', 'C17')
        c.raises('format.bufErr')
        c.frame()
        c.ghost_mods = {('gh', 'out')}
        bw = lambda v: v.F(v.a('bw'), 'format.bufWriter', 'bw')
        txt = (lambda v: v.a('s')) if nm == 'writeString' else (lambda v: byte_str(v.a('s')))

        def wrote(v, txt=txt):
            v.eng.set_gh(v.st, 'out', put(v.eng, v.pre.gh('out'), txt(v)))
        c.ghost_exit = wrote
        c.ens('C07', 'exactly the bytes given are written', lambda v, bw=bw, txt=txt: v.gh('wlog') == z3.Store(
            v.pre.gh('wlog'), bw(v), S.cat(z3.Select(v.pre.gh('wlog'), bw(v)), txt(v))))
        for t in ('C07', 'C17'):
            c.ens(t, 'the output grows by the bytes given', lambda v, txt=txt: v.gh('out') == put(v.eng, v.pre.gh('out'), txt(v)))

        c.ens('C07', 'returns the number of bytes', (lambda v: v.ret == S.len(v.a('s'))) if nm == 'writeString' else (lambda v: v.ret == 1))

    LAST = I(int(R.prog.consts['format.IndentCond4']))
    MI, MN = 'map[string]format.IndentStyle', 'map[parse.Node]format.IndentStyle'

    def declared(v, mt, m):
        k = z3.Const('k!y', v.eng.sort_of(v.eng.prog.under(mt)['key']))
        w = v.eng.named(z3.Select(v.H(('MV', mt, '')), m))
        return z3.ForAll([k], And(z3.Select(w, k) >= 0, z3.Select(w, k) <= LAST), patterns=[z3.Select(w, k)])

    def tables_declared(v):
        p = v.a('p')
        return declared(v, MI, pf(v, p, 'indentStyles'))

    cst = lambda n: I(int(R.prog.consts['format.' + n]))

    def special_declared(v):
        """The styles given to single nodes are declared ones, and none that depends on the head of a form."""
        p = v.a('p')
        k = z3.Int('k!z')
        w = v.eng.named(z3.Select(v.H(('MV', MN, '')), pf(v, p, 'specialIndent')))
        return And(pf(v, p, 'specialIndent') != 0, declared(v, MN, pf(v, p, 'specialIndent')),
                   z3.ForAll([k], Not(headed(z3.Select(w, k))), patterns=[z3.Select(w, k)]))

    def headed(s):
        return Or(*[s == cst(x) for x in ('IndentList', 'IndentCond0', 'IndentCond1', 'IndentCond2', 'IndentCond4')])

    def head_ok(v, s, style):
        h = z3.Select(v.row('parse.Node', s.arr), s.off)
        return Implies(headed(style), And(s.len > 0, *[Not(isT(v, h, x)) for x in ('NewlineNode', 'CommentNode', 'MetadataNode', 'TagNode')]))

    R.printing = dict(headed=headed, head_ok=head_ok, special_declared=special_declared, tables_declared=tables_declared, LAST=LAST, cst=cst,
                      elements_known=elements_known)

    c = R.fn(PR + 'chooseIndent', 'p', 'nodes').tags_only('C07', 'C18')
    for t in ('C07', 'C18'):
        c.axiom(t, 'the styles configured are declared ones', tables_declared)
    for t in ('C07', 'C18'):
        c.ens(t, 'a declared style', lambda v: And(v.ret >= 0, v.ret <= LAST, head_ok(v, v.a('nodes'), v.ret)))
    c.frame()
    c = R.fn(PR + 'indentStyleForSymbol', 'p', 'name').tags_only('C07', 'C18')
    for t in ('C07', 'C18'):
        c.axiom(t, 'the styles configured are declared ones', tables_declared)
    for t in ('C07', 'C18'):
        c.ens(t, 'a declared style', lambda v: And(v.ret >= 0, v.ret <= LAST))
    c.frame()
    c = R.fn(PR + 'applySpecialIndentRules', 'p', 'node').tags_only('C07', 'C18')
    for t in ('C07', 'C18'):
        c.req(t, 'there is a list, the styles of nodes are declared ones', lambda v: And(v.a('node') != 0, special_declared(v)))
    for t in ('C07', 'C18'):
        c.ens(t, 'the styles of nodes are declared ones', special_declared)
    c.cand(lambda lv: [('the styles of nodes are declared ones', lambda v: special_declared(v.sv()))] if lv.eng.top.con.name == PR + 'applySpecialIndentRules' else [])
    c.frame('M.' + MN)

    def indent(v):
        v.eng.gh_indent = v.eng.named(pf(v, v.a('p'), 'IndentChar'))
        return T

    c = R.fn(PR + 'alignDocstring', 'p', 'docstring', 'w').tags_only('C07')
    c.ens('C07', 'the aligned text', lambda v: v.ret == aligned(v.a('docstring'), v.a('w'), pf(v, v.a('p'), 'IndentChar')), trusted=True)
    c.frame()

    c = R.fn(PR + 'printNode', 'p', 'node', 'w').tags_only('C07')
    c.raises('format.bufErr')
    c.axiom('C07', 'the indentation character', indent)
    c.ghost_mods = {('gh', 'out'), ('gh', 'seq_end')}
    c.axiom('C07', 'every element is a node', typed_nodes)
    c.req('C07', 'there is a form to print', lambda v: And(known(v, v.a('node')), v.a('w') >= 0))
    c.req('C07', 'the styles of nodes are declared ones', special_declared)
    c.ens('C07', 'the styles of nodes are declared ones', special_declared)
    c.ens('C07', 'the form is written as its tokens, each element once', lambda v: node_out(v, v.a('node'), v.pre.gh('out'), v.a('w')))
    c.ens('C07', 'rendered (by definition)', lambda v: rendered(v.a('node'), v.pre.gh('out'), v.gh('out')), trusted=True)
    c.ens('C07', 'the width does not shrink', lambda v: v.ret >= v.a('w'))

    c = R.fn(PR + 'printSequence', 'p', 'nodes', 'w', 'style').tags_only('C07')
    c.raises('format.bufErr')
    c.axiom('C07', 'the indentation character', indent)
    c.ghost_mods = {('gh', 'out'), ('gh', 'seq_end')}
    c.req('C07', 'every element is a node', lambda v: Implies(
        all_off(v.eng.top, pf(v.eng.top, v.a('p'), 'Transforms')) if v.eng.top.con.name == PR + 'PrintTree' else T, elements_known(v, v.a('nodes'))))
    c.req('C07', 'no negative width, a declared style', lambda v: And(v.a('w') >= 0, v.a('style') >= 0, v.a('style') <= LAST, head_ok(v, v.a('nodes'), v.a('style'))))
    c.req('C07', 'the styles of nodes are declared ones', special_declared)
    c.ens('C07', 'the styles of nodes are declared ones', special_declared)
    c.ens('C07', 'the width does not shrink', lambda v: v.ret >= v.a('w'))

    def rules(v):
        s = v.a('nodes')
        return seq_rules(v, v.eng.named(v.row('parse.Node', s.arr)), s.off, s.len, v.gh('out'), v.a('w') > 0)
    c.axiom('C07', 'how sequences are written', rules)

    def seq_post(v):
        s = v.a('nodes')
        return sequence(v.eng.named(v.pre.row('parse.Node', s.arr)), s.off, s.len, v.pre.gh('out'), v.gh('out'))
    c.ghost_exit = lambda v: v.eng.set_gh(v.st, 'seq_end', v.gh('out'))
    c.ens('C07', 'the elements are written in order, separated, newlines as line breaks', seq_post)
    c.ens('C07', 'marks the end of the sequence', lambda v: v.gh('seq_end') == v.gh('out'))

    def cands(lv):
        top = lv.eng.top
        if top.con.name != PR + 'printSequence' or 'C07' not in lv.eng.tags:
            return []
        s = top.a('nodes')
        row = lv.eng.named(top.row('parse.Node', s.arr))
        out = []
        el = lambda v, k: elements(row, s.off, k, top.gh('out'), v.sv().gh('out'))
        prev = lambda v, k, t: And(k > 0, isT(top, z3.Select(row, s.off + k - 1), t))
        out.append(('the styles of nodes are declared ones', lambda v: special_declared(v.sv())))
        for r, t in lv.vars['int']:
            k = lambda v, r=r: v.get(r) + 1
            out.append(('elements seen are written', lambda v, k=k: el(v, k(v))))
            for b, t2 in lv.vars['bool']:
                out.append(('after a newline', lambda v, k=k, b=b: v.get(b) == prev(v, k(v), 'NewlineNode')))
                out.append(('after a comment', lambda v, k=k, b=b: v.get(b) == prev(v, k(v), 'CommentNode')))
                out.append(('after an element on the line', lambda v, k=k, b=b: v.get(b) == And(k(v) > 0, Not(prev(v, k(v), 'NewlineNode')))))
                out.append(('at the start', lambda v, k=k, b=b: v.get(b) == (k(v) == 0)))
            for b, t2 in lv.vars['bool']:
                out.append(('not before the third', lambda v, k=k, b=b: Implies(v.get(b), k(v) >= 2)))
            for r2, t2 in lv.vars['int']:
                if r2 != r:
                    out.append(('at most as many', lambda v, k=k, r2=r2: v.get(r2) <= k(v)))
                    out.append(('after the first', lambda v, k=k, r2=r2: Implies(And(k(v) > 0, headed(top.a('style'))), v.get(r2) >= top.a('w'))))
                    for b, t3 in lv.vars['bool']:
                        out.append(('2 more', lambda v, r2=r2, b=b: v.get(r2) >= top.a('w') + z3.If(v.get(b), I(2), I(0))))
        return out
    c.cand(cands)

    # ---- the whole tree
    MB = 'map[format.Transform]bool'
    trans = sorted(int(x) for n, x in R.prog.consts.items() if n.startswith('format.Transform'))

    def all_off(v, m):
        return And(m != 0, *[And(z3.Select(v.dom(MB, m), I(t)), Not(z3.Select(z3.Select(v.H(('MV', MB, '')), m), I(t)))) for t in trans])

    TREE = [('F', 'Nodes', NODES_T, x) for x in ('arr', 'off', 'len')] + [('F', 'Roots', NODES_T, x) for x in ('arr', 'off', 'len')] + [
        ('E', 'parse.Node', ''), ('F', 'Node', 'parse.Node', ''), ('F', 'Val', 'string', ''), ('F', 'Text', 'string', '')]
    c = R.fn('format.applyTransforms', 't', 'transforms').tags_only('C07')
    c.raises('*')
    c.req('C07', 'there is a tree', lambda v: v.a('t') != 0)
    off_same = lambda v: Implies(all_off(v.pre, v.pre.a('transforms')), And(*[v.H(k) == v.pre.H(k) for k in TREE]))
    c.ens('C07', 'no transforms change nothing', off_same)
    c.exc('C07', 'no transforms fail never', lambda v: Not(all_off(v.pre, v.a('transforms'))))
    c.cand(lambda lv: [('no transforms change nothing', lambda v, k=k: Implies(all_off(lv.eng.top, lv.eng.top.a('transforms')), v.sv().H(k) == lv.eng.top.H(k)))
                       for k in TREE] if lv.eng.top.con.name == 'format.applyTransforms' else [])

    def non_nil(v, s):
        j = z3.Int('j!nn')
        row = v.eng.named(v.row('parse.Node', s.arr))
        return z3.ForAll([j], Implies(And(s.off <= j, j < s.off + s.len), z3.Select(row, j) != 0), patterns=[z3.Select(row, j)])
    c = R.fn('format.parseRequireSeq', 'nodes').tags_only('C07')
    c.axiom('C07', 'every element is a node', typed_nodes)
    c.axiom('C07', 'elements are nodes', lambda v: non_nil(v, v.a('nodes')))
    c.frame()
    c.cand(lambda lv: [('elements kept are nodes', lambda v, r=r: non_nil(v.sv(), v.get(r))) for r, t in lv.vars['slice'] if t == NODES_T]
           if lv.eng.top.con.name == 'format.parseRequireSeq' else [])

    for nm, mp in (('markDocstrings', (MDOC,)), ('markThreadFirsts', ('map[parse.Node]struct{}',)), ('markRequires', ('map[string]string',))):
        c = R.fn(PR + nm, 'p', 'n').tags_only('C07')
        c.raises('*')
        c.axiom('C07', 'the printer was made by NewPrinter', lambda v: And(v.a('n') != 0, *[pf(v, v.a('p'), f) != 0 for f in (
            'docstrings', 'threadFirst', 'requires', 'refers')]))
        c.axiom('C07', 'every element is a node', typed_nodes)
        c.frame(*['M.' + m for m in mp])

    c = R.fn(PR + 'PrintTree', 'p', 't').tags_only('C07')
    c.raises('*')
    c.axiom('C07', 'the indentation character', indent)
    roots = lambda v: v.F(v.a('t'), 'parse.Tree', 'Roots')
    c.axiom('C07', 'there is a tree', lambda v: And(v.a('t') != 0, elements_known(v, roots(v))))
    c.axiom('C07', 'the printer was made by NewPrinter', lambda v: And(
        special_declared(v), pf(v, v.a('p'), 'bufWriter') != 0, v.F(pf(v, v.a('p'), 'bufWriter'), 'format.bufWriter', 'bw') != 0))
    off = lambda v: all_off(v, pf(v, v.a('p'), 'Transforms'))

    def tree_post(v):
        rs = roots(v)
        same = And(*[getattr(rs, x) == getattr(roots(v.pre), x) for x in ('arr', 'off', 'len')])
        return Implies(And(v.ret == 0, off(v.pre)), And(same, sequence(v.eng.named(v.row('parse.Node', rs.arr)), rs.off, rs.len, v.pre.gh('out'), v.gh('out')),
                                                       v.row('parse.Node', rs.arr) == v.pre.row('parse.Node', rs.arr)))
    c.ens('C07', 'without transforms the roots are written in order', tree_post)
    c.cand(lambda lv: [('all transforms stay off', lambda v: Implies(off(lv.eng.top), And(
        off(v.sv()), pf(v.sv(), lv.eng.top.a('p'), 'Transforms') == pf(lv.eng.top, lv.eng.top.a('p'), 'Transforms'))))] if lv.eng.top.con.name == PR + 'PrintTree' else [])


def uses_recover(g):
    return any(i['op'] in ('Call', 'Defer') and i['fn'].get('k') == 'b' and i['fn'].get('n') == 'recover'
               for b in g.blocks for i in b['ins'])


def byte_str(b):
    c = ival(b)
    return S.lit(bytes([c])) if c is not None and 0 <= c < 256 else fn('sfrombyte', Int, Str)(b)
