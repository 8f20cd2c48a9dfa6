"""Contracts of the parser: the tree it builds covers the token stream (C01, C03, C04, C05)."""
import z3
from terms import *
from contracts import *
from engine import Slice, StructV, SView, SkipCand

NODES_T = '[]parse.Node'
tokTyp = fn('tokTyp', Int, Int, Int)
tokPos = fn('tokPos', Int, Int, Int)
tokVal = fn('tokVal', Int, Int, Str)
gapf = fn('gap', Int, Int, Int, Bool)

FALLBACK = ['eof', 'apostrophe', 'at-sign', 'backtick', 'char-literal', 'circumflex', 'comment', 'dispatch', 'keyword',
            'left-brace', 'left-bracket', 'left-paren', 'number', 'octothorpe', 'right-brace', 'right-bracket',
            'right-paren', 'string', 'symbol', 'tilde', 'newline', 'error']
DISPATCH = ['#(', '#?', '#?@', '#:', '#_', '#=', '#"', '#{', "#'", '#^', '#!', '#<']


def token_types(prog):
    """name -> value, from the table of names in the source."""
    g = prog.gconst.get('parse.tokTypeToName')
    if g and g[0] == 'map' and len(g[1]) >= 20:
        return {v: int(k) for k, v in g[1].items()}
    return {n: i for i, n in enumerate(FALLBACK)}

TRUE = z3.BoolVal(True)


class PV:
    """Parser vocabulary over a view."""

    def __init__(self, tt):
        self.tt = tt

    def T(self, n):
        return I(self.tt[n])

    def ch(self, v, t):
        return v.F(v.F(t, 'parse.Tree', 'lex'), 'parse.lexer', 'tokens')

    def rd(self, v, t):
        return z3.Select(v.eng.named(v.gh('rd')), self.ch(v, t))

    def idx(self, v, t):
        return self.rd(v, t) - v.F(t, 'parse.Tree', 'peekCount')

    def is_tok(self, v, t, tok, i):
        c = self.ch(v, t)
        return And(tok.f['typ'] == tokTyp(c, i), tok.f['pos'] == tokPos(c, i), tok.f['val'] == tokVal(c, i))

    def PS(self, v, t):
        """The parser state is consistent with the token stream."""
        pk = v.F(t, 'parse.Tree', 'peekCount')
        tok = v.F(t, 'parse.Tree', 'tok')
        rd = self.rd(v, t)
        return And(t != 0, v.F(t, 'parse.Tree', 'lex') != 0, self.ch(v, t) != 0, pk >= 0, pk <= 1, rd - pk >= 0,
                   Implies(pk == 1, And(self.is_tok(v, t, tok, rd - 1), tok.f['typ'] != self.T('error'))))

    def live(self, v, t):
        """The end of the stream has not been read."""
        rd = self.rd(v, t)
        ty = tokTyp(self.ch(v, t), rd - 1)
        return Or(v.F(t, 'parse.Tree', 'peekCount') == 1, rd == 0, And(ty != self.T('eof'), ty != self.T('error')))

    # ---- nodes
    def isT(self, v, n, ty):
        return v.eng.is_type(n, 'parse.' + ty)

    def H(self, v, *key):
        return v.eng.named(v.H(key))

    def kids(self, v, n):
        return Slice(*[z3.Select(self.H(v, 'F', 'Nodes', NODES_T, pt), n) for pt in ('arr', 'off', 'len', 'cap')], 'parse.Node')

    def row(self, v, arr):
        return z3.Select(self.H(v, 'E', 'parse.Node', ''), arr)

    def elem(self, v, s, k):
        return z3.Select(self.row(v, s.arr), s.off + k)

    def wrapped(self, v, n):
        return z3.Select(self.H(v, 'F', 'Node', 'parse.Node', ''), n)

    def parent(self, v, n):
        return z3.Select(self.H(v, 'F', 'parent', 'parse.Node', ''), n)

    def sp(self, v, n):
        return z3.Select(v.eng.named(v.gh('sp')), n)

    def lo(self, v, n):
        return z3.Select(v.eng.named(v.gh('from')), n)

    def hi(self, v, n):
        return z3.Select(v.eng.named(v.gh('to')), n)

    def gp(self, v, n):
        return z3.Select(v.eng.named(v.gh('gpar')), n)

    def semantic(self, v, n):
        return And(Not(self.isT(v, n, 'CommentNode')), Not(self.isT(v, n, 'NewlineNode')))

    def opts(self, v, t):
        return [v.F(t, 'parse.Tree', x) for x in ('includeNonSemantic', 'ignoreCommentForm', 'ignoreReaderDiscard')]

    def allopts(self, v, t):
        a, b, c = self.opts(v, t)
        return And(a, Not(b), Not(c))

    def comment_form(self, v, n):
        s = self.kids(v, n)
        h = self.elem(v, s, 0)
        return And(self.isT(v, n, 'ListNode'), s.len > 0, self.isT(v, h, 'SymbolNode'),
                   z3.Select(self.H(v, 'F', 'Val', 'string', ''), h) == S.lit('comment'))

    def included(self, v, t, n):
        a, b, c = self.opts(v, t)
        return And(Or(Not(b), Not(self.comment_form(v, n))),
                   Or(Not(c), Not(self.isT(v, n, 'ReaderDiscardNode'))),
                   Or(a, self.semantic(v, n)))

    def gap(self, v, t, i, j):
        return gapf(t, i, j)

    def close(self, s, j, e, guard, body, bound):
        """forall j in the slice: body, e being element j; bound: the node is itself quantified (and marked)."""
        rng = And(j >= s.off, j < s.off + s.len, guard)
        if bound is None:
            return z3.ForAll([j], z3.Implies(rng, body), patterns=[e])
        n, sp = bound
        return z3.ForAll([n, j], z3.Implies(And(sp, rng), body), patterns=[z3.MultiPattern(sp, e)])

    def nm(self, v, s, bound):
        return s if bound is not None else Slice(v.eng.named(s.arr), v.eng.named(s.off), v.eng.named(s.len), s.cap, s.elem)

    def tile(self, v, t, s, a, b, guard=TRUE, bound=None):
        """The elements of s follow each other between tokens a and b, only dropped forms between them."""
        j = z3.Int('j!t')
        s = self.nm(v, s, bound)
        row = self.row(v, s.arr)
        e0, e1 = z3.Select(row, j), z3.Select(row, j - 1)
        ends = Implies(guard, And(Implies(s.len == 0, self.gap(v, t, a, b)),
                                  Implies(s.len > 0, And(self.gap(v, t, a, self.lo(v, z3.Select(row, s.off))),
                                                         self.gap(v, t, self.hi(v, z3.Select(row, s.off + s.len - 1)), b)))))
        if bound is not None:
            ends = z3.ForAll([bound[0]], z3.Implies(bound[1], ends), patterns=[bound[1]])
        return [ends, self.close(s, j, e0, And(guard, j > s.off), self.gap(v, t, self.hi(v, e1), self.lo(v, e0)), bound)]

    def elems(self, v, t, s, gp, lower=None, guard=TRUE, bound=None):
        """[(tag, formula)] about the elements of a list of children."""
        j = z3.Int('j!e')
        s = self.nm(v, s, bound)
        e = z3.Select(self.row(v, s.arr), j)
        fa = lambda f: self.close(s, j, e, guard, f, bound)
        out = [(None, fa(And(e != 0, self.sp(v, e), self.gp(v, e) == gp, *([e >= lower] if lower is not None else [])))),
               ('C04', fa(self.included(v, t, e)))]
        return out

    def between(self, v, t, i, j):
        """Only newlines and comments between tokens i and j."""
        k = z3.Int('k!b')
        ty = tokTyp(self.ch(v, t), k)
        return And(i <= j, z3.ForAll([k], z3.Implies(And(i <= k, k < j), Or(ty == self.T('newline'), ty == self.T('comment'))), patterns=[ty]))

    CONT = {  # type: (opening token(s), closing)
        'ListNode': (['left-paren'], 'right-paren'), 'VectorNode': (['left-bracket'], 'right-bracket'),
        'SetNode': (['#{', 'left-brace'], 'right-brace'), 'FnLiteralNode': (['#(', 'left-paren'], 'right-paren'),
        'ReaderCondNode': (['#?', 'left-paren'], 'right-paren'), 'ReaderCondSpliceNode': (['#?@', 'left-paren'], 'right-paren')}
    WRAP = {'DerefNode': ['at-sign'], 'QuoteNode': ['apostrophe'], 'SyntaxQuoteNode': ['backtick'], 'UnquoteNode': ['tilde'],
            'UnquoteSpliceNode': ['tilde', 'at-sign'], 'MetadataNode': ['circumflex'], 'ReaderDiscardNode': ['#_'],
            'ReaderEvalNode': ['#=']}
    LEAF = {'SymbolNode': ('symbol', 'Val'), 'KeywordNode': ('keyword', 'Val'), 'NumberNode': ('number', 'Val'),
            'CommentNode': ('comment', 'Text'), 'CharacterNode': ('char-literal', 'Text'), 'NewlineNode': ('newline', None)}

    def tok_is(self, c, i, nm):
        if nm.startswith('#'):
            return And(tokTyp(c, i) == self.T('dispatch'), tokVal(c, i) == S.lit(nm))
        return tokTyp(c, i) == self.T(nm)

    def spec(self, v, t, n, a, b, types=None, gp=None, lower=None, bound=None):
        """[(tag, name, formula)]: node n is the form read from tokens a .. b-1 (bound: for all marked n)."""
        c = self.ch(v, t)
        out = []
        want = lambda ty: types is None or ty in types

        def add(tag, name, f, closed=False):
            if bound is not None and not closed:
                f = z3.ForAll([n], z3.Implies(bound[1], f), patterns=[bound[1]])
            out.append((tag, name, f))
        gpn = n if gp is None else gp
        s = self.kids(v, n)
        conts = [ty for ty in list(self.CONT) + ['MapNode'] if want(ty)]
        start = a + 1
        for ty in self.CONT:
            if want(ty):
                op, cl = self.CONT[ty]
                add('C03', '%s stands between its delimiters' % ty, Implies(self.isT(v, n, ty), And(
                    *[self.tok_is(c, a + i, o) for i, o in enumerate(op)], tokTyp(c, b - 1) == self.T(cl), b >= a + len(op) + 1)))
                if len(op) > 1:
                    start = z3.If(self.isT(v, n, ty), a + len(op), start)
        if want('MapNode'):
            ns = z3.Select(self.H(v, 'F', 'Namespace', 'string', ''), n)
            plain = ns == S.lit('')
            ism = self.isT(v, n, 'MapNode')
            add('C03', 'MapNode stands between its delimiters', Implies(ism, And(
                tokTyp(c, b - 1) == self.T('right-brace'), b >= a + 2,
                Implies(plain, tokTyp(c, a) == self.T('left-brace')),
                Implies(Not(plain), And(self.tok_is(c, a, '#:'), tokTyp(c, a + 1) == self.T('keyword'), tokVal(c, a + 1) == ns,
                                        tokTyp(c, a + 2) == self.T('left-brace'), b >= a + 4)))))
            start = z3.If(And(ism, Not(plain)), a + 3, start)
        if conts:
            isc = Or(*[self.isT(v, n, ty) for ty in conts]) if types is not None else v.eng.in_group(n, 'cont')
            for i, f in enumerate(self.tile(v, t, s, start, b - 1, isc, bound)):
                add('C03', 'its children cover the tokens between its delimiters, in order (%d)' % i, f, True)
            for tag, f in self.elems(v, t, s, gpn, lower, isc, bound):
                add(tag, 'children of a delimited form' + (' are those the options keep' if tag else ''), f, True)
        w = self.wrapped(v, n)
        wst = a + 1
        wr = [ty for ty in self.WRAP if want(ty)]
        for ty in wr:
            op = self.WRAP[ty]
            f = And(*[self.tok_is(c, a + i, o) for i, o in enumerate(op)])
            if ty == 'MetadataNode':
                f = Or(f, self.tok_is(c, a, '#^'))
            off = lambda i: v.F(tokPos(c, i), 'parse.Pos', 'Offset')
            if ty == 'UnquoteSpliceNode':
                wst = z3.If(self.isT(v, n, ty), a + 2, wst)
                f = And(f, off(a + 1) == off(a) + 1)
            if ty == 'UnquoteNode':
                f = And(f, Or(tokTyp(c, a + 1) != self.T('at-sign'), off(a + 1) != off(a) + 1))
            add('C03', '%s begins with its prefix' % ty, Implies(self.isT(v, n, ty), f))
        if wr:
            isw = Or(*[self.isT(v, n, ty) for ty in wr]) if types is not None else v.eng.in_group(n, 'wrap')
            add(None, 'what a prefix holds', Implies(isw, And(w != 0, self.sp(v, w), self.gp(v, w) == gpn,
                                                              *([w >= lower] if lower is not None else []))))
            add('C03', 'a prefix holds the next form', Implies(isw, And(self.between(v, t, wst, self.lo(v, w)), self.hi(v, w) == b)))
            add('C04', 'a prefix never holds a newline or comment', Implies(isw, self.semantic(v, w)))
        val = lambda f: z3.Select(self.H(v, 'F', f, 'string', ''), n)
        for ty, (tk, f) in self.LEAF.items():
            if want(ty):
                add('C02+C03', '%s is one token' % ty, Implies(self.isT(v, n, ty), And(b == a + 1, tokTyp(c, a) == self.T(tk),
                                                                                 *([val(f) == tokVal(c, a)] if f else []))))
        if want('NilNode'):
            add('C02+C03', 'NilNode is one token', Implies(self.isT(v, n, 'NilNode'), And(b == a + 1, tokTyp(c, a) == self.T('symbol'), tokVal(c, a) == S.lit('nil'))))
        if want('BoolNode'):
            bv = z3.Select(self.H(v, 'F', 'Val', 'bool', ''), n)
            add('C02+C03', 'BoolNode is one token', Implies(self.isT(v, n, 'BoolNode'), And(
                b == a + 1, tokTyp(c, a) == self.T('symbol'), tokVal(c, a) == z3.If(bv, S.lit('true'), S.lit('false')))))
        if want('StringNode'):
            add('C02+C03', 'StringNode is one token', Implies(self.isT(v, n, 'StringNode'), And(
                b == a + 1, tokTyp(c, a) == self.T('string'), val('Val') == S.sub(tokVal(c, a), I(1), S.len(tokVal(c, a)) - 1))))
        for ty, op, tk, tr in (('RegexNode', '#"', 'string', True), ('TagNode', 'octothorpe', 'symbol', False), ('VarQuoteNode', "#'", 'symbol', False)):
            if want(ty):
                x = tokVal(c, a + 1)
                add('C02+C03', '%s is its prefix and a token' % ty, Implies(self.isT(v, n, ty), And(
                    b == a + 2, self.tok_is(c, a, op), tokTyp(c, a + 1) == self.T(tk),
                    val('Val') == (S.sub(x, I(1), S.len(x) - 1) if tr else x))))
        add('C02', 'its position is that of its first token', Implies(v.eng.is_node(n) if types is None else T,
                                                                    z3.Select(self.H(v, 'F', 'Pos', '*parse.Pos', ''), n) == tokPos(c, a)))
        return out

    def wf(self, v, t):
        """[(tag, name, formula)]: every node marked as read is the form of its tokens."""
        n = z3.Int('n!w')
        pat = [self.sp(v, n)]
        out = [(None, 'marked nodes exist', z3.ForAll([n], z3.Implies(self.sp(v, n), And(
            n > 0, n < v.nxt, v.eng.is_node(n), self.lo(v, n) < self.hi(v, n), self.lo(v, n) >= 0)), patterns=pat))]
        out.append(('C05', 'the link of a node is nil or the node it is in', z3.ForAll([n], z3.Implies(self.sp(v, n), Or(
            self.parent(v, n) == 0, And(self.gp(v, n) != 0, self.parent(v, n) == self.gp(v, n)))), patterns=[self.sp(v, n), self.parent(v, n)])))
        ka = self.kids(v, n)
        out.append((None, 'arrays of children exist', z3.ForAll([n], z3.Implies(And(self.sp(v, n), v.eng.in_group(n, 'cont')), And(
            ka.arr >= 0, ka.arr < v.nxt, ka.off >= 0, ka.len >= 0, ka.len <= ka.cap, Implies(ka.arr == 0, ka.cap == 0))), patterns=pat)))
        out.append((None, 'unmarked nodes have no parent', z3.ForAll([n], z3.Implies(Not(self.sp(v, n)), self.gp(v, n) == 0), patterns=[self.gp(v, n)])))
        out += self.spec(v, t, n, self.lo(v, n), self.hi(v, n), bound=(n, self.sp(v, n)))
        return out


GHOSTS = {'rd': z3.ArraySort(Int, Int), 'live': z3.ArraySort(Int, Bool), 'sp': z3.ArraySort(Int, Bool), 'from': z3.ArraySort(Int, Int),
          'to': z3.ArraySort(Int, Int), 'gpar': z3.ArraySort(Int, Int), 'lk': z3.ArraySort(Int, Bool)}
TAGS = ('C01', 'C03', 'C04', 'C05', 'C02', 'C20')
NTOK = z3.Function('NTOK', Int, Int)     # how many tokens the lexer sends


def stream_facts(p, c, i):
    """What the lexer guarantees about the token stream (proved of the lexer under C02)."""
    T_ = p.T
    ty, val = tokTyp(c, i), tokVal(c, i)
    fs = [And(ty >= 0, ty <= T_('error'), tokPos(c, i) != 0),
          Implies(ty == T_('string'), S.slen(val) >= 2),
          Implies(ty == T_('char-literal'), S.slen(val) >= 1),
          Implies(ty == T_('keyword'), S.slen(val) >= 1)]
    pt, pv = tokTyp(c, i - 1), tokVal(c, i - 1)
    for d, nx in (('#(', 'left-paren'), ('#{', 'left-brace'), ('#"', 'string'), ('#:', 'keyword')):
        fs.append(Implies(And(i > 0, pt == T_('dispatch'), pv == S.lit(d)), Or(ty == T_(nx), ty == T_('error'))))
    fs.append(Implies(ty == T_('dispatch'), Or(*[val == S.lit(d) for d in DISPATCH if d not in ('#!', '#<')])))
    return fs


def is_linker(g):
    """A function that hangs the children of a node under it."""
    inv = {i.get('invoke') for b in g.blocks for i in b['ins'] if i['op'] == 'Call' and i.get('iface') == 'parse.Node'}
    return {'setParent', 'Children'} <= inv and any(q['t'] == 'parse.Node' for q in g.params)


def parse_module(R):
    prog = R.prog
    p = PV(token_types(prog))
    R.pv = p
    R.ghosts.update(GHOSTS)
    R.chan_mods.add(('gh', 'rd'))

    def recv(eng, fr, st, ins, ch):
        i = z3.simplify(z3.Select(eng.gh(st, 'rd'), ch))
        last = tokTyp(ch, i - 1)
        comma = ins.get('commaok')
        if comma:
            eng.oblige(st, ch != 0, 'the channel exists', 'safe')
            eng.fact(i >= 0, st)        # a number of receives
            ok = eng.fresh('ok', z3.BoolSort())
            eng.fact(And(i <= NTOK(ch), ok == (i < NTOK(ch))), st)
        else:
            eng.oblige(st, And(ch != 0, i >= 0, Or(i == 0, And(last != p.T('eof'), last != p.T('error')))),
                       'no token is read after the last one', 'safe')
            ok = T
            eng.fact(i < NTOK(ch), st)
        if eng.has('C20'):
            eng.assumed.add('a receive takes the tokens sent, then fails once the channel is closed; that nothing is sent after the end, '
                            'and that the channel is closed only after the end or an error, is proved of the lexer')
        eng.fact(Implies(And(ok, tokTyp(ch, i) == p.T('eof')), i == NTOK(ch) - 1), st)
        n2 = eng.fresh('nxt', Int)
        eng.fact(n2 >= st.nxt)
        st.nxt = n2
        pos, val = tokPos(ch, i), tokVal(ch, i)
        eng.fact(And(pos >= 0, pos < n2, Implies(pos != 0, eng.typeOf(pos) == eng.type_id('*parse.Pos'))), st)
        for f in stream_facts(p, ch, i):
            eng.fact(Implies(ok, f), st)
        eng.assumed.add('tokens arrive in the order sent (channel); what holds of every token sent is proved of the lexer under C02')
        eng.set_gh(st, 'rd', z3.Store(eng.gh(st, 'rd'), ch, z3.If(ok, i + 1, i) if comma else i + 1))
        if comma:
            return TupleV([StructV('parse.token', {'typ': z3.If(ok, tokTyp(ch, i), I(0)), 'pos': z3.If(ok, pos, I(0)),
                                                   'val': z3.If(ok, val, S.lit(''))}), ok])
        return StructV('parse.token', {'typ': tokTyp(ch, i), 'pos': pos, 'val': val})
    R.recv = recv

    def make_chan(eng, st, ch):
        eng.set_gh(st, 'rd', z3.Store(eng.gh(st, 'rd'), ch, I(0)))
        eng.fact(NTOK(ch) >= 0, st)
    R.make_chan = make_chan

    def go_stmt(eng, fr, st, ins):
        if eng.has('C20') and not (ins['fn'].get('k') == 'f' and ins['fn']['n'] == '(*parse.lexer).run'):
            eng.oblige(st, F, 'the only goroutine started is the lexer', 'C20')
        eng.assumed.add('the goroutine started for the lexer touches only the lexer and its channel')
    R.go_stmt = go_stmt

    def keys_only(c, *names, tag=None):
        """Only the lookahead of the receiver changes among these fields."""
        KEYS = [('typ', 'parse.tokType'), ('pos', '*parse.Pos'), ('val', 'string')]

        def f(v):
            t = v.a('t')
            r = v.N(t, 'parse.Tree', 'tok')
            fs = []
            for nm, ty in KEYS:
                k = ('F', nm, ty, '')
                fs.append(v.H(k) == z3.Store(v.pre.H(k), r, z3.Select(v.H(k), r)))
            k = ('F', 'peekCount', 'int', '')
            fs.append(v.H(k) == z3.Store(v.pre.H(k), t, z3.Select(v.H(k), t)))
            k = ('gh', 'rd')
            c_ = p.ch(v.pre, t)
            fs.append(v.H(k) == z3.Store(v.pre.H(k), c_, z3.Select(v.H(k), c_)))
            return And(*fs)
        c.lookahead = f
        c.ens(tag, 'only the lookahead of the parser changes', f)

    def carries(v):
        e = v.eng
        return And(v.panic != 0, Implies(e.typeOf(v.panic) == e.type_id('parse.lexError'), v.F(v.panic, 'parse.lexError', 'err') != 0),
                   Implies(e.typeOf(v.panic) == e.type_id('parse.parseError'), v.F(v.panic, 'parse.parseError', 'err') != 0))

    FR = ['F.typ', 'F.pos', 'F.val', 'F.peekCount', 'F.inLambda']

    def base(name, *params):
        c = R.fn(name, *params)
        c.tags_only(*TAGS)
        c.raises('parse.lexError', 'parse.parseError')
        c.frame(*FR)
        c.req(None, 'the parser state is consistent', lambda v: p.PS(v, v.a('t')))
        c.ens(None, 'the parser state is consistent', lambda v: p.PS(v, v.a('t')))
        within = lambda v: p.rd(v, v.a('t')) <= NTOK(p.ch(v, v.a('t')))
        c.req('C20', 'only tokens sent have been taken', within)
        c.ens('C20', 'only tokens sent have been taken', within)
        c.exc(None, 'the panic carries an error', carries)
        keys_only(c)
        return c
    c = R.fn('(parse.token).AsError', 't')
    c.tags_only(*TAGS)
    c.frame()
    c.req(None, 'the token is an error', lambda v: v.a('t').f['typ'] == p.T('error'))
    c.ens(None, 'returns an error', lambda v: v.ret != 0)
    c = base('(*parse.Tree).next', 't')
    c.req(None, 'the end of the stream has not been read', lambda v: p.live(v, v.a('t')))
    c.ens(None, 'returns the next token of the stream', lambda v: And(
        p.idx(v, v.a('t')) == p.idx(v.pre, v.a('t')) + 1, p.is_tok(v, v.a('t'), v.ret, p.idx(v.pre, v.a('t'))),
        v.F(v.a('t'), 'parse.Tree', 'peekCount') == 0, v.ret.f['typ'] != p.T('error'),
        p.is_tok(v, v.a('t'), v.F(v.a('t'), 'parse.Tree', 'tok'), p.idx(v.pre, v.a('t')))))
    c.ens(None, 'what the lexer guarantees of the token', lambda v: And(
        *stream_facts(p, p.ch(v, v.a('t')), p.idx(v.pre, v.a('t')))), trusted=True)
    c.exc('C01', 'fails only at an error token', lambda v: And(
        v.eng.typeOf(v.panic) == v.eng.type_id('parse.lexError'),
        tokTyp(p.ch(v.pre, v.a('t')), p.idx(v.pre, v.a('t'))) == p.T('error')))
    c = base('(*parse.Tree).backup', 't')
    c.raises_ = []
    c.req(None, 'no token has been put back already', lambda v: And(
        v.F(v.a('t'), 'parse.Tree', 'peekCount') == 0, p.idx(v, v.a('t')) >= 1,
        p.is_tok(v, v.a('t'), v.F(v.a('t'), 'parse.Tree', 'tok'), p.idx(v, v.a('t')) - 1),
        v.F(v.a('t'), 'parse.Tree', 'tok').f['typ'] != p.T('error')))
    c.ens(None, 'puts the token back', lambda v: p.idx(v, v.a('t')) == p.idx(v.pre, v.a('t')) - 1)

    GH4 = {('gh', 'sp'), ('gh', 'from'), ('gh', 'to'), ('gh', 'gpar')}

    def ghosts_old_same(v):
        n = z3.Int('n!o')
        return And(*[z3.ForAll([n], z3.Implies(n < v.pre.nxt, z3.Select(v.eng.named(v.gh(g)), n) == z3.Select(v.eng.named(v.pre.gh(g)), n)),
                               patterns=[z3.Select(v.eng.named(v.gh(g)), n)]) for g in ('sp', 'from', 'to', 'gpar')])

    def fresh_arrays(v):
        n = z3.Int('n!f')
        s = p.kids(v, n)
        return z3.ForAll([n], z3.Implies(And(p.sp(v, n), n >= v.pre.nxt, v.eng.in_group(n, 'cont')), Or(s.arr >= v.pre.nxt, And(s.arr == 0, s.cap == 0))),
                         patterns=[p.sp(v, n)])

    def nodes_fn(name, *params):
        """A function that reads forms: all marked nodes stay well formed."""
        c = base(name, *params)
        for tag, nm, _ in WF_NAMES:
            c.req(tag, 'read so far: ' + nm, lambda v, nm=nm: wfget(v, nm))
            c.ens(tag, 'read so far: ' + nm, lambda v, nm=nm: wfget(v, nm))
        c.ens(None, 'marks of existing nodes are kept', ghosts_old_same)
        c.ens(None, 'new nodes have new arrays', fresh_arrays)
        c.req(None, 'the end of the stream has not been read', lambda v: p.live(v, v.a('t')))
        c.ens(None, 'only the last token ends the stream', lambda v: Or(p.live(v, v.a('t')), v.ret == 0))
        c.axiom('C03', 'with nothing dropped a gap is empty', lambda v: gap_elim(v))
        return c

    def gap_elim(v):
        i, j = z3.Ints('i!g j!g')
        t = v.a('t')
        return And(Implies(p.allopts(v, t), z3.ForAll([i, j], z3.Implies(gapf(t, i, j), i == j), patterns=[gapf(t, i, j)])),
                   z3.ForAll([i, j], z3.Implies(i == j, gapf(t, i, j)), patterns=[gapf(t, i, j)]))

    # names of the conjuncts of the invariant (evaluated lazily per view)
    class Dummy:
        pass
    WF_NAMES = []

    def wfget(v, nm):
        memo = getattr(v, '_wf', None)
        if memo is None:
            memo = v._wf = {b: f for a, b, f in p.wf(v, v.a('t'))}
        return memo[nm]
    # a throwaway engine gives the list of names
    import engine as E
    e = E.Engine(prog, R, ())
    st = E.State()
    st.env, st.comps, st.cells, st.locs, st.nxt, st.reach = {}, {}, {}, {}, z3.Int('nx'), T
    cc = Contract('dummy', ['t'])
    for tag, nm, f in p.wf(SView(e, st, cc, [z3.Int('t')]), z3.Int('t')):
        WF_NAMES.append((tag, nm, None))

    # ---- parseNext: marks its result
    def mark(v):
        """Ghost code at the exits of parseNext."""
        eng, st, t = v.eng, v.st, v.a('t')
        r = eng.named(v.ret)
        a, b = p.idx(v.pre, t), p.idx(v, t)
        eng.oblige(st, Implies(r != 0, And(Not(p.sp(v, r)), r >= v.pre.nxt)), 'a node is marked once', None)
        s, w = p.nm(v, p.kids(v, r), None), p.wrapped(v, r)
        j, c = z3.Ints('j!m c!m')
        isc, isw = v.eng.in_group(r, 'cont'), v.eng.in_group(r, 'wrap')
        e = z3.Select(p.row(v, s.arr), j)
        rng = And(j >= s.off, j < s.off + s.len)
        ok = lambda x: And(p.sp(v, x), p.gp(v, x) == 0, x >= v.pre.nxt)
        eng.oblige(st, Implies(And(r != 0, isc), z3.ForAll([j], z3.Implies(rng, ok(e)), patterns=[e])),
                   'children belong to no other node', None)
        eng.oblige(st, Implies(And(r != 0, isw), ok(w)), 'the child belongs to no other node', None)
        g0 = v.gh('gpar')
        g1 = eng.fresh('gpar', g0.sort())
        sel1, sel0 = z3.Select(g1, c), z3.Select(g0, c)
        eng.fact(And(
            Implies(r == 0, g1 == g0),
            Implies(And(r != 0, isc), z3.ForAll([j], z3.Implies(rng, z3.Select(g1, e) == r), patterns=[e])),
            Implies(And(r != 0, isw), z3.Select(g1, w) == r),
            z3.ForAll([c], z3.Implies(Or(sel0 != 0, Not(p.sp(v, c)), c < v.pre.nxt), sel1 == sel0), patterns=[sel1])), st)
        eng.set_gh(st, 'gpar', g1)
        for g, x in (('sp', T), ('from', a), ('to', b)):
            h0 = eng.gh(st, g)
            h1 = eng.fresh(g, h0.sort())
            eng.fact(h1 == z3.If(r == 0, h0, z3.Store(h0, r, x)), st)
            eng.set_gh(st, g, h1)

    c = nodes_fn('(*parse.Tree).parseNext', 't')
    c.ghost_mods |= GH4
    c.ghost_exit = mark
    c.ens(None, 'nil only at the end of the stream', lambda v: Implies(v.ret == 0, And(
        tokTyp(p.ch(v, v.a('t')), p.idx(v.pre, v.a('t'))) == p.T('eof'), p.idx(v, v.a('t')) == p.idx(v.pre, v.a('t')) + 1)))
    result = lambda v: Implies(v.ret != 0, And(
        v.ret >= v.pre.nxt, v.eng.is_node(v.ret), p.sp(v, v.ret), p.hi(v, v.ret) == p.idx(v, v.a('t')), p.gp(v, v.ret) == 0))
    c.ens(None, 'the result is a new form without a parent', result)
    c.ens(None, 'the result is the form at the current token', lambda v: Implies(v.ret != 0, And(
        p.lo(v, v.ret) == p.idx(v.pre, v.a('t')),
        p.idx(v, v.a('t')) > p.idx(v.pre, v.a('t')), tokTyp(p.ch(v, v.a('t')), p.idx(v.pre, v.a('t'))) != p.T('eof'))))

    def drop_rule(v):
        i = z3.Int('i!d')
        t = v.a('t')
        a, b = p.idx(v.pre, t), p.idx(v, t)
        return Implies(And(v.ret != 0, Not(p.included(v, t, v.ret))), z3.ForAll([i], z3.Implies(gapf(t, i, a), gapf(t, i, b)), patterns=[gapf(t, i, a)]))
    c.ens('C03', 'definition of a gap: dropped forms', drop_rule, trusted=True)

    c = nodes_fn('(*parse.Tree).parseNextSemantic', 't')
    c.ens(None, 'the result is a new form without a parent', result)
    c.ens(None, 'the result is the next form that is no newline or comment', lambda v: And(
        v.ret != 0, p.semantic(v, v.ret), p.idx(v, v.a('t')) > p.idx(v.pre, v.a('t'))))
    c.ens('C03', 'only newlines and comments are skipped', lambda v: p.between(v, v.a('t'), p.idx(v.pre, v.a('t')), p.lo(v, v.ret)))

    def arr_ok(v, s):
        r = And(Or(And(s.arr >= v.pre.nxt, s.arr < v.nxt), And(s.arr == 0, s.cap == 0)), s.off >= 0, s.len >= 0, s.len <= s.cap)
        return Implies(v.eng.in_group(v.ret, 'cont'), r)

    def reader(name, types, start, params=('t', 'start'), after=0):
        """A function that reads the rest of a form whose first token has been read."""
        nm = '(*parse.Tree).' + name
        if prog.fns.get(nm) is None:
            return
        c = nodes_fn(nm, *params)
        tk = params[1]
        c.req(None, 'the first token has been read', lambda v: And(
            p.idx(v, v.a('t')) >= 1, p.is_tok(v, v.a('t'), v.a(tk), p.idx(v, v.a('t')) - 1), v.F(v.a('t'), 'parse.Tree', 'peekCount') == 0,
            start(p.ch(v, v.a('t')), p.idx(v, v.a('t')) - 1)))
        c.req(None, 'what the lexer guarantees of that token', lambda v: And(*stream_facts(p, p.ch(v, v.a('t')), p.idx(v, v.a('t')) - 1)))
        c.ens('C05', 'the result has no parent link yet', lambda v: p.parent(v, v.ret) == 0)
        c.ens(None, 'the result is new', lambda v: And(v.ret >= v.pre.nxt, Or(*[p.isT(v, v.ret, ty) for ty in types]), Not(p.sp(v, v.ret)),
                                                     p.idx(v, v.a('t')) >= p.idx(v.pre, v.a('t')), p.gp(v, v.ret) == 0,
                                                     (arr_ok(v, p.kids(v, v.ret))
                                                      if any(ty in p.CONT or ty == 'MapNode' for ty in types) else T)))
        # the conjuncts that concern these types
        e2 = E.Engine(prog, R, ())
        v0 = SView(e2, st, c, [z3.Int('t'), StructV('parse.token', {'typ': z3.Int('x'), 'pos': z3.Int('y'), 'val': z3.Const('z', Str)})], rets=[z3.Int('r')])
        for i, (tag, n, _) in enumerate(p.spec(v0, z3.Int('t'), z3.Int('r'), z3.Int('a'), z3.Int('b'), types)):
            def f(v, i=i, types=types):
                t = v.a('t')
                return p.spec(v, t, v.ret, p.idx(v.pre, t) - 1, p.idx(v, t), types, gp=I(0), lower=v.pre.nxt)[i][2]
            c.ens(tag, n, f)
        return c
    tk = lambda *ns: (lambda c, i: Or(*[p.tok_is(c, i, n) for n in ns]))
    reader('parseList', ['ListNode'], tk('left-paren'))
    reader('parseVector', ['VectorNode'], tk('left-bracket'))
    m = reader('parseMap', ['MapNode'], tk('left-brace'))
    if m is not None:
        m.ens(None, 'no namespace yet', lambda v: z3.Select(v.H(('F', 'Namespace', 'string', '')), v.ret) == S.lit(''))
    reader('parseFnLiteral', ['FnLiteralNode'], tk('#('))
    reader('parseReaderCond', ['ReaderCondNode', 'ReaderCondSpliceNode'], tk('#?', '#?@'))
    reader('parseNamespacedMap', ['MapNode'], tk('#:'))
    reader('parseMetadata', ['MetadataNode'], tk('circumflex', '#^'))
    reader('parseReaderDiscard', ['ReaderDiscardNode'], tk('#_'))
    reader('parseReaderEval', ['ReaderEvalNode'], tk('#='))
    reader('parseRegex', ['RegexNode'], tk('#"'))
    reader('parseSet', ['SetNode'], tk('#{'))
    reader('parseVarQuote', ['VarQuoteNode'], tk("#'"))
    reader('parseCharLiteral', ['CharacterNode'], tk('char-literal'), ('t', 'tok'))
    reader('parseDispatch', ['FnLiteralNode', 'ReaderCondNode', 'ReaderCondSpliceNode', 'MapNode', 'ReaderDiscardNode', 'ReaderEvalNode',
                             'RegexNode', 'SetNode', 'VarQuoteNode', 'MetadataNode'], tk('dispatch'), ('t', 'tok'))
    reader('parseTag', ['TagNode'], tk('octothorpe'))

    # ---- parent links (C05): a linked node's children point back to it, and are linked
    CORE = ('marked nodes exist', 'arrays of children exist', 'unmarked nodes have no parent', 'children of a delimited form', 'what a prefix holds')
    LINKT = ('C05',)

    def core(v):
        memo = getattr(v, '_core', None)
        if memo is None:
            memo = v._core = And(*[f for _, b, f in p.wf(v, I(0)) if b in CORE])
        return memo

    def lk(v, n):
        return z3.Select(v.eng.named(v.gh('lk')), n)

    def linked(v):
        """[formula]: the children of every linked node have it as parent and are linked."""
        n, j = z3.Ints('n!l j!l')
        s = p.kids(v, n)
        e = z3.Select(p.row(v, s.arr), j)
        w = p.wrapped(v, n)
        return And(z3.ForAll([n], z3.Implies(lk(v, n), p.sp(v, n)), patterns=[lk(v, n)]),
                   z3.ForAll([n, j], z3.Implies(And(lk(v, n), v.eng.in_group(n, 'cont'), j >= s.off, j < s.off + s.len),
                                                And(p.parent(v, e) == n, lk(v, e))), patterns=[z3.MultiPattern(lk(v, n), e)]),
                   z3.ForAll([n], z3.Implies(And(lk(v, n), v.eng.in_group(n, 'wrap')), And(p.parent(v, w) == n, lk(v, w))), patterns=[lk(v, n)]))

    def parents_follow(v):
        """Parent links only ever become the ghost parent."""
        c = z3.Int('c!p')
        return z3.ForAll([c], z3.Implies(c < v.pre.nxt, Or(p.parent(v, c) == p.parent(v.pre, c), And(p.sp(v, c), p.gp(v, c) != 0, p.parent(v, c) == p.gp(v, c)))),
                         patterns=[p.parent(v, c)])

    def lk_grows(v):
        c = z3.Int('c!g')
        return z3.ForAll([c], z3.Implies(lk(v.pre, c), lk(v, c)), patterns=[lk(v.pre, c)])

    linkers = [n for n, g in sorted(prog.fns.items()) if g is not None and n.split('.')[0].lstrip('(*') == 'parse' and is_linker(g)]
    R.linkers = linkers

    def link_exit(v):
        h0 = v.eng.gh(v.st, 'lk')
        v.eng.set_gh(v.st, 'lk', z3.Store(h0, v.a('n'), T))

    for nm in linkers:
        g = prog.fns[nm]
        ps = [q['n'] for q in g.params]
        i = [k for k, q in enumerate(g.params) if q['t'] == 'parse.Node'][-1]
        ps[i] = 'n'
        c = R.fn(nm, *ps)
        c.tags_only(*TAGS)
        c.frame('F.parent')
        c.ghost_mods |= {('gh', 'lk')}
        c.ghost_exit = link_exit
        c.req(None, 'the tree is well formed', core)
        c.req(None, 'the node has been read', lambda v: p.sp(v, v.a('n')))
        c.req('C05', 'linked nodes are the parents of their children', linked)
        c.ens('C05', 'linked nodes are the parents of their children', linked)
        c.ens('C05', 'the node is linked', lambda v: lk(v, v.a('n')))
        c.ens('C05', 'linked nodes stay linked', lk_grows)
        c.ens('C05', 'parent links only become the enclosing node', parents_follow)

        def lcands(lv):
            if not lv.eng.has('C05'):
                return [('core', lambda v: core(v.sv()))]
            top = lv.eng.top
            n = top.a('n')
            out = [('linked so far', lambda v: linked(v.sv())), ('linked grows', lambda v: lk_grows(v.sv())),
                   ('parents follow', lambda v: parents_follow(v.sv()))]
            for r, ty in sorted(regs_used(lv).items()):
                s = lv.pre.env.get((lv.fr.depth, r))
                if not isinstance(s, Slice) or ty != NODES_T:
                    continue
                for ref, _ in lv.vars['int']:
                    for d in (0, 1):
                        def f(v, ref=ref, d=d, s=s):
                            sv = v.sv()
                            j = z3.Int('j!lc')
                            s2 = p.nm(sv, s, None)
                            e = z3.Select(p.row(sv, s2.arr), j)
                            return z3.ForAll([j], z3.Implies(And(j >= s2.off, j < s2.off + s2.len, j < s2.off + v.get(ref) + d),
                                                             And(p.parent(sv, e) == n, lk(sv, e))), patterns=[e])
                        out.append(('children up to %s + %d are linked' % (ref[1], d), f))
                out.append(('core', lambda v: core(v.sv())))
            return out
        c.cand(lcands)

    # ---- the whole tree
    def roots(v, t):
        return v.eng.load_key(v.st, ('F', 'Roots', NODES_T), NODES_T, t)

    def roots_linked_of(v, t):
        s = p.nm(v, roots(v, t), None)
        j = z3.Int('j!rl')
        e = z3.Select(p.row(v, s.arr), j)
        return z3.ForAll([j], z3.Implies(And(j >= s.off, j < s.off + s.len), lk(v, e)), patterns=[e])

    if prog.fns.get('(*parse.Tree).parse') is not None:
        c = nodes_fn('(*parse.Tree).parse', 't')
        c.raises_ = []
        c.ensures_ = []
        c.frame_fresh = c.frame_fresh + ['F.Roots', 'F.parent']
        c.ghost_mods |= {('gh', 'lk')}
        c.req(None, 'nothing has been read', lambda v: And(p.rd(v, v.a('t')) == 0, v.F(v.a('t'), 'parse.Tree', 'peekCount') == 0,
                                                           roots(v, v.a('t')).len == 0, roots(v, v.a('t')).cap == 0, roots(v, v.a('t')).arr == 0,
                                                           roots(v, v.a('t')).off == 0))
        c.req('C05', 'nothing is linked', linked)
        okf = lambda f: (lambda v: Implies(v.ret == 0, f(v)))
        ci, ii = z3.Ints('c!n i!n')
        c.axiom('C20', 'the end is the last token sent', lambda v: z3.ForAll([ci, ii], z3.Implies(
            And(0 <= ii, ii < NTOK(ci), tokTyp(ci, ii) == p.T('eof')), ii == NTOK(ci) - 1), patterns=[tokTyp(ci, ii)]))
        c.ens('C20', 'the lexer has nothing left to send', lambda v: p.rd(v, v.a('t')) == NTOK(p.ch(v, v.a('t'))))
        for tg in ('C01', 'C20'):
            c.ens(tg, 'without an error the whole input has been read', okf(lambda v: And(
            p.idx(v, v.a('t')) >= 1, tokTyp(p.ch(v, v.a('t')), p.idx(v, v.a('t')) - 1) == p.T('eof'))))
        for tag, nm, _ in WF_NAMES:
            c.ens(tag, 'nodes read: ' + nm, okf(lambda v, nm=nm: wfget(v, nm)))
        for i in (0, 1):
            c.ens('C03', 'the top-level nodes cover the tokens in order (%d)' % i, okf(
                lambda v, i=i: p.tile(v, v.a('t'), roots(v, v.a('t')), I(0), p.idx(v, v.a('t')) - 1)[i]))
            c.ens('C04' if i else None, 'the top-level nodes' + (' are those the options keep' if i else ''), okf(
                lambda v, i=i: p.elems(v, v.a('t'), roots(v, v.a('t')), I(0))[i][1]))
        c.ens('C05', 'linked nodes are the parents of their children', okf(linked))

        def roots_linked(v):
            return roots_linked_of(v, v.a('t'))
        c.ens('C05', 'every top-level node is linked', okf(roots_linked))
        c.ens(None, 'the options are kept', lambda v: And(*[a == b for a, b in zip(p.opts(v, v.a('t')), p.opts(v.pre, v.a('t')))]))

        def parse_cands(lv):
            t = lv.eng.top.a('t')
            get = lambda v: roots(v.sv(), t)
            out = slice_cands(lv, 't.Roots', get, t, I(0))
            out += [('linked so far', lambda v: linked(v.sv()) if lv.eng.has('C05') else skip()),
                    ('roots linked', lambda v: roots_linked(v.sv()) if lv.eng.has('C05') else skip()),
                    ('parents follow', lambda v: parents_follow(v.sv()) if lv.eng.has('C05') else skip()),
                    ('roots array', lambda v: And(get(v).len >= 0, get(v).len <= get(v).cap, get(v).off >= 0, get(v).arr >= 0, get(v).arr < v.st.nxt,
                                                  Or(get(v).arr != 0, get(v).cap == 0))),
                    ('roots array is new', lambda v: Or(get(v).arr >= lv.eng.top.nxt, And(get(v).arr == 0, get(v).cap == 0))),
                    ('options kept', lambda v: And(*[a == b for a, b in zip(p.opts(v.sv(), t), p.opts(lv.eng.top, t))]))]
            return out

        def skip():
            raise SkipCand()
        c.cand(parse_cands)

    # ---- SetChildren
    PK = ('F', 'parent', 'parse.Node', '')

    def allowed(v):
        n, s = v.a('n'), v.a('nodes')
        return And(Not(v.eng.in_group(n, 'leaf')), Implies(v.eng.in_group(n, 'wrap'), s.len == 1))

    def nonnil(v, s, guard=TRUE):
        j = z3.Int('j!nn')
        s = p.nm(v, s, None)
        e = z3.Select(p.row(v, s.arr), j)
        return z3.ForAll([j], z3.Implies(And(guard, j >= s.off, j < s.off + s.len), e != 0), patterns=[e])

    def member(v, s, x):
        j = z3.Int('j!mem')
        s = p.nm(v, s, None)
        e = z3.Select(p.row(v, s.arr), j)
        return z3.Exists([j], And(j >= s.off, j < s.off + s.len, e == x), patterns=[e])

    def each(v, s, f, guard=TRUE, upto=None):
        j = z3.Int('j!ea')
        s = p.nm(v, s, None)
        e = z3.Select(p.row(v, s.arr), j)
        return z3.ForAll([j], z3.Implies(And(guard, j >= s.off, j < s.off + s.len, *([j < s.off + upto] if upto is not None else [])), f(e)), patterns=[e])

    def old_member(v, x):
        n = v.a('n')
        return Or(And(v.eng.in_group(n, 'cont'), member(v.pre, p.kids(v.pre, n), x)),
                  And(v.eng.in_group(n, 'wrap'), p.wrapped(v.pre, n) == x))

    def set_clauses(c):
        c.ens('C05', 'accepts only as many children as the kind can have', allowed)
        c.ens('C05', 'the new children are those given', lambda v: And(
            Implies(v.eng.in_group(v.a('n'), 'cont'), And(*[getattr(p.kids(v, v.a('n')), k) == getattr(v.a('nodes'), k) for k in ('arr', 'off', 'len')])),
            Implies(v.eng.in_group(v.a('n'), 'wrap'), p.wrapped(v, v.a('n')) == z3.Select(v.pre.row('parse.Node', v.a('nodes').arr), v.a('nodes').off))))
        c.ens('C05', 'every new child has the node as parent', lambda v: each(v.pre, v.a('nodes'), lambda e: p.parent(v, e) == v.a('n')))
        c.ens('C05', 'every removed child is left without a parent', lambda v: And(
            each(v.pre, p.kids(v.pre, v.a('n')), lambda e: Or(p.parent(v, e) == 0, member(v.pre, v.a('nodes'), e)), v.eng.in_group(v.a('n'), 'cont')),
            Implies(v.eng.in_group(v.a('n'), 'wrap'), Or(p.parent(v, p.wrapped(v.pre, v.a('n'))) == 0, member(v.pre, v.a('nodes'), p.wrapped(v.pre, v.a('n')))))))

        def others(v):
            x = z3.Int('x!o')
            return z3.ForAll([x], z3.Implies(p.parent(v, x) != p.parent(v.pre, x), Or(old_member(v, x), member(v.pre, v.a('nodes'), x))),
                             patterns=[p.parent(v, x)])
        c.ens('C05', 'no other link changes', others)
        c.ens('C05', 'no other node changes', lambda v: And(*[
            v.H(k) == z3.Store(v.pre.H(k), v.a('n'), z3.Select(v.H(k), v.a('n')))
            for k in [('F', 'Nodes', NODES_T, pt) for pt in ('arr', 'off', 'len', 'cap')] + [('F', 'Node', 'parse.Node', '')]]))
        c.ens('C05', 'the elements of arrays do not change', lambda v: v.H(('E', 'parse.Node', '')) == v.pre.H(('E', 'parse.Node', '')))

    def set_cands(lv):
        top = lv.eng.top
        n = top.a('n')
        out = []
        for r, ty in sorted(regs_used(lv).items()):
            s = lv.pre.env.get((lv.fr.depth, r))
            if not isinstance(s, Slice) or ty != NODES_T:
                continue
            for to, nm in ((I(0), 'nil'), (n, 'n')):
                for ref, _ in lv.vars['int']:
                    for d in (0, 1):
                        out.append(('%s up to %s + %d: parent is %s' % (r, ref[1], d, nm),
                                    lambda v, ref=ref, d=d, s=s, to=to: each(v.sv(), s, lambda e: p.parent(v.sv(), e) == to, TRUE, v.get(ref) + d)))
                x = z3.Int('x!sc')
                out.append(('only members of %s change to %s' % (r, nm), lambda v, s=s, to=to, x=x: z3.ForAll(
                    [x], Or(p.parent(v.sv(), x) == p.parent(v.pre_sv(), x), And(p.parent(v.sv(), x) == to, member(v.sv(), s, x))),
                    patterns=[p.parent(v.sv(), x)])))
        return out

    R.setters = []
    for t in prog.node_types:
        nm = '(*%s).SetChildren' % t
        if prog.fns.get(nm) is None:
            continue
        c = R.fn(nm, 'n', 'nodes')
        c.tags_only('C05')
        c.raises('*')
        c.req(None, 'the node and its children exist', lambda v: And(
            v.a('n') != 0, nonnil(v, v.a('nodes')), nonnil(v, p.kids(v, v.a('n')), v.eng.in_group(v.a('n'), 'cont')),
            Implies(v.eng.in_group(v.a('n'), 'wrap'), p.wrapped(v, v.a('n')) != 0)))
        set_clauses(c)
        c.exc('C05', 'refuses only what the kind cannot hold', lambda v: Not(allowed(v)))
        c.cand(set_cands)
        R.setters.append(nm)

    # ---- the entry points
    R.externs['bufio.NewReader'] = Ext(lambda eng, fr, st, a, ins: new_obj(eng, st, '*bufio.Reader'))
    c = R.fn('parse.Reader', 'r', 'filename', 'opts')
    c.tags_only(*TAGS)
    c.ghost_mods |= GH4 | {('gh', 'lk'), ('gh', 'rd')}
    none = lambda v: z3.And(*[z3.ForAll([z3.Int('n!z')], z3.Select(v.gh(g), z3.Int('n!z')) == x)
                              for g, x in (('sp', z3.BoolVal(False)), ('lk', z3.BoolVal(False)), ('gpar', I(0)))])
    c.axiom(None, 'ghost state starts empty: no node is marked', none)
    c.frame(*FR, 'F.Roots', 'F.parent')
    c.ghost_mods.add(('gh', 'live'))
    ch = z3.Int('c!live')
    c.ens('C20', 'every lexer started has nothing left to send', lambda v: z3.ForAll([ch], z3.Implies(
        And(z3.Select(v.gh('live'), ch), Not(z3.Select(v.pre.gh('live'), ch))),
        z3.Select(v.eng.named(v.gh('rd')), ch) == NTOK(ch)), patterns=[z3.Select(v.eng.named(v.gh('live')), ch)]))
    t_ = lambda v: v.rets[0]
    ok = lambda v: v.rets[1] == 0
    c.ens('C01', 'a tree or an error, never both or neither', lambda v: And(
        (t_(v) == 0) == (v.rets[1] != 0), t_(v) >= 0, v.rets[1] >= 0))
    on = lambda f: (lambda v: Implies(ok(v), And(t_(v) != 0, f(v))))
    c.ens('C01', 'without an error the whole input has been read', on(lambda v: And(
        p.idx(v, t_(v)) >= 1, tokTyp(p.ch(v, t_(v)), p.idx(v, t_(v)) - 1) == p.T('eof'))))
    for tag, nm, _ in WF_NAMES:
        c.ens(tag, 'nodes read: ' + nm, on(lambda v, nm=nm: {b: f for _, b, f in p.wf(v, t_(v))}[nm]))
    for i in (0, 1):
        c.ens('C03', 'the top-level nodes cover the tokens in order (%d)' % i, on(
            lambda v, i=i: p.tile(v, t_(v), roots(v, t_(v)), I(0), p.idx(v, t_(v)) - 1)[i]))
        c.ens('C04' if i else None, 'the top-level nodes' + (' are those the options keep' if i else ''), on(
            lambda v, i=i: p.elems(v, t_(v), roots(v, t_(v)), I(0))[i][1]))
    c.ens('C05', 'linked nodes are the parents of their children', on(linked))
    c.ens('C05', 'every top-level node is linked', on(lambda v: roots_linked_of(v, t_(v))))
    bit = lambda v, k: (v.a('opts') / (1 << k)) % 2 == 1
    for k, nm in enumerate(('includeNonSemantic', 'ignoreCommentForm', 'ignoreReaderDiscard')):
        c.ens('C04', 'option bit %d is %s' % (k, nm), on(lambda v, k=k, nm=nm: v.F(t_(v), 'parse.Tree', nm) == bit(v, k)))

    # ---- loops
    def cands(lv):
        top = lv.eng.top
        if not (set(TAGS) & lv.eng.tags) or not top.con.params or top.con.params[0] != 't' or ('gh', 'rd') not in lv.mods:
            return []
        t = top.a('t')
        out = [('parser state', lambda v: p.PS(v.sv(), t)),
               ('lookahead only', lambda v: top.con.lookahead(v.sv())),
               ('tokens taken', lambda v: p.rd(v.sv(), t) <= NTOK(p.ch(v.sv(), t)) if lv.eng.has('C20') else T),
               ('stream not at its end', lambda v: p.live(v.sv(), t)),
               ('no token put back', lambda v: v.sv().F(t, 'parse.Tree', 'peekCount') == 0),
               ('tokens read', lambda v: p.idx(v.sv(), t) >= p.idx(top, t)),
               ('marks of old nodes', lambda v: ghosts_old_same(v.sv())),
               ('new arrays', lambda v: fresh_arrays(v.sv())),
               ('only newlines and comments so far', lambda v: p.between(v.sv(), t, p.idx(top, t), p.idx(v.sv(), t)))]
        for tag, nm, _ in WF_NAMES:
            if lv.eng.has(tag):
                def g(v, nm=nm):
                    s = v.sv()
                    return {b: f for a, b, f in p.wf(s, t)}[nm]
                out.append(('wf: ' + nm, g))
        pre = lv.pre
        e0 = p.idx(SView(lv.eng, pre, top.con, top.args, pre=top), t)
        for ref, ty in lv.vars['slice']:
            if ty != NODES_T:
                continue
            out += slice_cands(lv, ref, None, t, e0)
        return out

    def slice_cands(lv, ref, getter, t, e0):
        out = []
        top = lv.eng.top
        get = getter or (lambda v: v.get(ref))
        nm = str(ref)
        for i in (0, 1):
            out.append(('%s tiles %d' % (nm, i), lambda v, i=i: p.tile(v.sv(), t, get(v), e0, p.idx(v.sv(), t))[i]))
        for i in (0, 1):
            def g(v, i=i):
                tag, f = p.elems(v.sv(), t, get(v), I(0), top.nxt)[i]
                if not lv.eng.has(tag):
                    raise SkipCand()
                return f
            out.append(('%s elements %d' % (nm, i), g))

        def own(v):
            s = get(v)
            n = z3.Int('n!own')
            sv = v.sv()
            return z3.ForAll([n], z3.Implies(And(p.sp(sv, n), v.eng.in_group(n, 'cont')), Or(p.kids(sv, n).arr != s.arr, s.cap == 0)), patterns=[p.sp(sv, n)])
        out.append(('%s not shared with marked nodes' % nm, own))
        return out
    R.cands.append(cands)
