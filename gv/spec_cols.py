"""Contracts of columns: where lines begin, spaces between elements (C18)."""
import z3
from terms import *
from contracts import *
from engine import Slice, SView
from spec_style import isT, pf, index, NORMAL, LIST, BODY, LET, FOR, BINDINGS, LETFN, DEFTYPE, COND0, COND1, COND2, COND4, PAIRS

PR = '(*format.Printer).'
BW = '(*format.bufWriter).'
ROW = z3.ArraySort(Int, Int)
# Of the output so far: bytes since the last line break, whether no element was begun since, and
# how many blanks the printer has written since an element or delimiter.
GH = ('col', 'bol', 'gap')
semantics = fn('elements_up_to', ROW, Int, Int, Int)        # row, offset, i: forms among the first i
place_in_pair = fn('place_in_pair', ROW, Int, Int, Int, Int)    # row, offset, leading, i: -1 before the pairs, then 0, 1 (, 2)
second_col = fn('column_of_the_second_element', Int, Int)
START = {s: n for s, n in PAIRS.items()}


def lay(v, e):
    """Not a form of its own: line breaks, comments, metadata, tags."""
    return Or(*[isT(v, e, x) for x in ('NewlineNode', 'CommentNode', 'MetadataNode', 'TagNode')])


class Seq:
    """The sequence printSequence prints and the columns of its elements."""

    def __init__(self, top):
        self.v, self.eng = top, top.eng
        s = top.a('nodes')
        self.off, self.len, self.w0, self.style = s.off, s.len, top.a('w'), top.a('style')
        self.row = top.eng.named(top.row('parse.Node', s.arr))
        self.sec = z3.Const('second_element_at', Int)
        self.max = I(int(top.eng.prog.consts.get('format.indentListMaxCommentAlign', 12)))

    def seen(self, what, i):
        i = z3.simplify(i) if z3.is_expr(i) else I(i)
        d = self.eng.__dict__.setdefault('col_facts', {})
        k = (what, i.get_id())
        n = d.get(k)            # facts of a trial run of a loop are dropped with it
        if n is not None and n[1] < len(self.eng.facts) and self.eng.facts[n[1]].eq(n[2]):
            return True
        return False

    def know(self, what, i, f):
        i = z3.simplify(i) if z3.is_expr(i) else I(i)
        n = len(self.eng.facts)
        self.eng.fact(f)
        if len(self.eng.facts) > n:
            self.eng.col_facts[what, i.get_id()] = (i, n, self.eng.facts[n])

    def at(self, i):
        return z3.Select(self.row, self.off + i)

    def nl(self, i):
        return isT(self.v, self.at(i), 'NewlineNode')

    def cm(self, i):
        return isT(self.v, self.at(i), 'CommentNode')

    def is_style(self, *ss):
        return Or(*[self.style == x for x in ss])

    def paired(self):
        return self.is_style(*START)

    def start(self):
        r = I(0)
        for s, n in START.items():
            r = z3.If(self.style == s, I(n), r)
        return self.eng.named(z3.simplify(r))

    def sem(self, i):
        """The number of forms among the first i elements."""
        c = lambda i: semantics(self.row, self.off, i)
        if self.seen('sem', i):
            return c(i)
        self.know('sem', i, And(c(I(0)) == 0, Implies(i > 0, c(i) == c(i - 1) + z3.If(lay(self.v, self.at(i - 1)), I(0), I(1)))))
        return c(i)

    def place(self, i):
        """The place in its pair of the form that follows the first i elements; -1 before the pairs."""
        st = self.start()
        p = lambda i: place_in_pair(self.row, self.off, st, i)
        if self.seen('place', i):
            return p(i)
        e = self.at(i - 1)
        q = z3.If(p(i - 1) >= 0, p(i - 1) + 1, I(-1))
        kw = And(isT(self.v, e, 'KeywordNode'), self.v.eng.load_key(self.v.st, ('F', 'Val', 'string'), 'string', e) == S.lit(':>>'))
        new = z3.If(Or(self.sem(i) == st, And(q == 2, Not(kw)), q > 2), I(0), q)
        self.know('place', i, And(p(I(0)) == z3.If(st > 0, I(-1), I(0)), Implies(i > 0, p(i) == z3.If(lay(self.v, e), p(i - 1), new))))
        return p(i)

    def base(self, i):
        """The column of lines of the form, once i elements have been printed."""
        one = self.w0 + 1
        alone = Or(self.nl(I(1)), And(self.cm(I(1)), self.sec - 1 - self.w0 > self.max))
        return z3.If(Or(i < 2, self.is_style(NORMAL, BINDINGS)), self.w0,
                     z3.If(self.is_style(LIST, COND0), z3.If(alone, one, self.sec), one))

    def more(self, i):
        return z3.If(And(self.paired(), self.place(i) > 0), I(2), I(0))

    def column(self, i):
        """The column of element i if it begins a line."""
        b = z3.If(And(i == 1, Not(self.is_style(NORMAL, BINDINGS, LIST, COND0))), self.w0 + 1, self.base(i))
        return b + self.more(i)


def blanks(eng, x):
    """(condition, number): the text is that many blanks."""
    v = S.value(x)
    if v is not None:
        return (T, I(len(v))) if v and set(v) == {32} else (F, I(0))
    ind = S.fromrune(eng.gh_indent) if hasattr(eng, 'gh_indent') else None
    if z3.is_app(x) and x.decl().eq(S.repeat_) and ind is not None:
        return x.arg(0) == ind, x.arg(1)
    return (x == ind, I(1)) if ind is not None else (F, I(0))


def write(v, txt):
    """The ghosts after the text has been written."""
    g = [v.gh(x) for x in GH]
    c = S.value(txt)
    if z3.is_app(txt) and txt.decl().kind() == z3.Z3_OP_ITE:
        a, b = (write_from(v.eng, g, t) for t in (txt.arg(1), txt.arg(2)))
        return [z3.If(txt.arg(0), x, y) for x, y in zip(a, b)]
    return write_from(v.eng, g, txt)


def write_from(eng, g, txt):
    c = S.value(txt)
    if c == b'\n':
        return [I(0), T, I(0)]
    bl, n = blanks(eng, txt)
    col, bol, gap = g
    return [z3.If(bl, col + n, col + S.len(txt)), And(bl, bol), z3.If(bl, gap + n, I(0))]


def cols_module(R):
    R.ghosts.update(col=Int, bol=z3.BoolSort(), gap=Int)
    pr = R.printing
    special = pr['special_declared']

    def rule(eng, name, g):
        if 'C18' not in eng.tags or not name.split('.')[0].lstrip('(*').startswith('format') or g.free:
            return False
        if eng.top.con.name not in (PR + 'printNode', PR + 'printSequence', PR + 'PrintTree'):
            return False
        return ('gh', 'col') not in eng.fn_mods(name) and not name.endswith(('.fmtErrf', '.isKeywordNode', '.threadFirstTransform'))
    R.opaque_rules.append(rule)

    def byte_str(b):
        c = ival(b)
        return S.lit(bytes([c])) if c is not None and 0 <= c < 256 else fn('sfrombyte', Int, Str)(b)

    for nm in ('writeString', 'writeByte'):
        c = R.fn(BW + nm, 'bw', 's')
        c.tags_only('C18')
        c.raises('format.bufErr')
        c.frame()
        c.ghost_mods = {('gh', x) for x in GH}
        txt = (lambda v: v.a('s')) if nm == 'writeString' else (lambda v: byte_str(v.a('s')))

        def exit_(v, txt=txt):
            for x, y in zip(GH, write(v.pre, txt(v))):
                v.eng.set_gh(v.st, x, y)
        c.ghost_exit = exit_
        c.req('C18', 'no line ends in blanks the printer wrote', lambda v, txt=txt: v.gh('gap') == 0 if S.value(txt(v)) == b'\n' else T)
        c.ens('C18', 'the column after the text', lambda v, txt=txt: And(*[v.gh(x) == y for x, y in zip(GH, write(v.pre, txt(v)))]))
        c.ens('C18', 'returns the number of bytes', (lambda v: v.ret == S.len(v.a('s'))) if nm == 'writeString' else (lambda v: v.ret == 1))

    def indent(v):
        ch = v.eng.named(pf(v, v.a('p'), 'IndentChar'))
        v.eng.gh_indent = ch
        return And(ch >= 0, ch < 128)

    # ---- one form
    c = R.fn(PR + 'printNode', 'p', 'node', 'w').tags_only('C18')
    c.raises('format.bufErr')
    c.axiom('C18', 'the indentation character is one byte', indent)
    c.ghost_mods = {('gh', x) for x in GH}
    c.req('C18', 'the column passed on is that of the output', lambda v: v.a('w') == v.gh('col'))
    c.req('C18', 'no negative width', lambda v: v.a('w') >= 0)
    c.req('C18', 'the styles of nodes are declared ones', special)
    c.ens('C18', 'the styles of nodes are declared ones', special)

    def top_seq(v):
        t = v.eng.top
        return Seq(t) if t.con.name == PR + 'printSequence' else None

    def separated(v):
        q = top_seq(v)
        if q is None:
            return T
        i = index(v.a('node'))
        v.eng.fact(Implies(And(i == 1, Not(v.gh('bol'))), q.sec == v.a('w')), v.st)
        return Implies(Not(v.gh('bol')), v.gh('gap') == z3.If(i == 0, I(0), I(1)))

    def placed(v):
        q = top_seq(v)
        if q is None:
            return T
        return Implies(v.gh('bol'), v.a('w') == q.column(v.eng.named(index(v.a('node')))))
    c.req('C18', 'elements on a line are one space apart', separated)
    c.req('C18', 'an element that begins a line is in the column of its style', placed)

    def printed(v):
        v.eng.set_gh(v.st, 'bol', F)
        v.eng.set_gh(v.st, 'gap', I(0))
    c.ghost_exit = printed
    c.ens('C18', 'returns the column after the form', lambda v: v.ret == v.gh('col'))
    c.ens('C18', 'an element has been printed (by definition)', lambda v: And(Not(v.gh('bol')), v.gh('gap') == 0))
    c.ens('C18', 'the width does not shrink', lambda v: v.ret >= v.a('w'))

    # ---- a sequence
    c = R.fn(PR + 'printSequence', 'p', 'nodes', 'w', 'style').tags_only('C18')
    c.raises('format.bufErr')
    c.axiom('C18', 'the indentation character is one byte', indent)
    c.ghost_mods = {('gh', x) for x in GH}
    c.req('C18', 'a declared style', lambda v: And(v.a('w') >= 0, v.a('style') >= 0, v.a('style') <= pr['LAST'],
                                                  pr['head_ok'](v, v.a('nodes'), v.a('style'))))
    c.req('C18', 'the column passed on is that of the output', lambda v: v.a('w') == v.gh('col'))
    c.req('C18', 'just after a delimiter, or at the start', lambda v: And(v.gh('gap') == 0, v.gh('bol') == (v.a('w') == 0)))
    c.req('C18', 'the styles of nodes are declared ones', special)
    c.ens('C18', 'the styles of nodes are declared ones', special)
    c.ens('C18', 'returns the column after the sequence', lambda v: v.ret == v.gh('col'))

    def closed(v):
        q = Seq(v.pre)
        n = q.len
        return Implies(And(v.gh('bol'), n > 0), Or(v.ret == q.base(n) + z3.If(q.nl(n - 1), q.more(n), I(0)),
                                                   And(q.cm(n - 1), v.ret == q.base(n) + q.more(n))))
    c.ens('C18', 'what follows an element follows directly', lambda v: Implies(Not(v.gh('bol')), v.gh('gap') == 0))
    c.ens('C18', 'a delimiter that begins a line is in the column of the form', lambda v: closed(v) if v.eng.top.con.name == PR + 'printSequence' else T)
    c.ens('C18', 'the width does not shrink', lambda v: v.ret >= v.a('w'))

    def one_place(v):
        q, j = Seq(v), z3.Int('j!op')
        e = z3.Select(q.row, j)
        return z3.ForAll([j], Implies(And(q.off <= j, j < q.off + q.len, Not(isT(v, e, 'NewlineNode'))), index(e) == j - q.off), patterns=[e])
    c.axiom('C18', 'every element is in one place', one_place)

    def cands(lv):
        top = lv.eng.top
        if top.con.name != PR + 'printSequence':
            return []
        q = Seq(top)
        out = [('the styles of nodes are declared ones', lambda v: special(v.sv())),
               ('no blanks yet', lambda v: v.sv().gh('gap') == 0),
               ('nothing on a line that begins', lambda v: Implies(v.sv().gh('bol'), v.sv().gh('col') == 0))]
        for x, t3 in lv.vars['int']:
            out.append(('not to the left of the form', lambda v, x=x: v.get(x) >= q.w0))
        gh = lambda v, x: v.sv().gh(x)
        for r, first in counters(lv):
            k = lambda v, r=r, d=1 if ival(first) == -1 else 0: v.get(r) + d
            prev = lambda v, f, k=k: And(k(v) > 0, f(k(v) - 1))
            here = lambda v, k=k, prev=prev: q.base(k(v)) + z3.If(prev(v, q.nl), q.more(k(v)), I(0))
            out.append(('the form has a column', lambda v, k=k: q.base(k(v)) >= q.w0))
            out.append(('a line begins after a newline', lambda v, k=k, prev=prev: gh(v, 'bol') == z3.If(k(v) == 0, top.gh('bol'), prev(v, q.nl))))
            for b, t2 in lv.vars['bool']:
                out.append(('after a newline', lambda v, k=k, b=b, prev=prev: v.get(b) == prev(v, q.nl)))
                out.append(('after a comment', lambda v, k=k, b=b, prev=prev: v.get(b) == prev(v, q.cm)))
                out.append(('after an element on the line', lambda v, k=k, b=b, prev=prev: v.get(b) == And(k(v) > 0, Not(prev(v, q.nl)))))
                out.append(('at the start', lambda v, k=k, b=b: v.get(b) == (k(v) == 0)))
                out.append(('two further', lambda v, k=k, b=b, prev=prev: v.get(b) == And(prev(v, q.nl), q.paired(), q.place(k(v)) > 0)))
            for x, t3 in lv.vars['int']:
                if x == r:
                    continue
                out.append(('forms so far', lambda v, k=k, x=x: v.get(x) == q.sem(k(v))))
                out.append(('place in the pair', lambda v, k=k, x=x: v.get(x) == q.place(k(v))))
                out.append(('the column of the line', lambda v, x=x, here=here: v.get(x) == here(v)))
                out.append(('the column', lambda v, x=x, here=here, prev=prev: v.get(x) == z3.If(prev(v, q.nl), here(v), gh(v, 'col'))))
                out.append(('the end of the first', lambda v, k=k, x=x: Implies(And(k(v) == 1, Not(q.nl(I(0)))), v.get(x) == gh(v, 'col'))))
                out.append(('the length of the first', lambda v, k=k, x=x: Implies(And(k(v) == 1, Not(q.nl(I(0)))), v.get(x) == gh(v, 'col') - q.w0)))
        return out
    c.cand(cands)

    # ---- the file
    c = R.fn(PR + 'PrintTree', 'p', 't').tags_only('C18')
    c.raises('*')
    c.axiom('C18', 'the indentation character is one byte', indent)
    c.axiom('C18', 'nothing has been written', lambda v: And(v.gh('col') == 0, v.gh('bol'), v.gh('gap') == 0))
    c.axiom('C18', 'the printer was made by NewPrinter', lambda v: special(v))
