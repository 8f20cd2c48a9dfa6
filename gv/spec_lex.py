"""Contracts of the lexer: every token carries its exact source text and position (C02), and the
token stream has the shape the parser relies on (C01).

The input is the rune sequence R(rd, 0..) with widths W, ended (kind 1) or failing (kind 2) at
some index.  ri is the index of the next rune; the token being scanned is [si, ri)."""
import z3
from terms import *
from prog import Unsupported
from contracts import *
from engine import Slice, StructV, SView, SkipCand
from spec_parse import tokTyp, tokPos, tokVal, token_types, stream_facts, PV, DISPATCH

R_ = fn('rune', Int, Int, Int)
W_ = fn('width', Int, Int, Int)
KIND = fn('kind', Int, Int, Int)
pO = fn('offsetAt', Int, Int, Int)
pL = fn('lineAt', Int, Int, Int)
pC = fn('colAt', Int, Int, Int)
TEXT = fn('srctext', Int, Int, Int, Str)
ESC = fn('escapedAt', Int, Int, Int, Bool)
LEX = '*parse.lexer'
SINGLES = {'apostrophe': "'", 'at-sign': '@', 'backtick': '`', 'circumflex': '^', 'left-brace': '{', 'left-bracket': '[',
           'left-paren': '(', 'right-brace': '}', 'right-bracket': ']', 'right-paren': ')', 'tilde': '~', 'newline': '\n'}
PEND = {'#(': '(', '#{': '{', '#"': '"', '#:': ':'}
GH = {'ri': z3.ArraySort(Int, Int), 'canun': z3.ArraySort(Int, Bool), 'ns': z3.ArraySort(Int, Int), 'tend': z3.ArraySort(Int, Int),
      'errs': z3.ArraySort(Int, Bool), 'lend': z3.ArraySort(Int, Bool), 'clsd': z3.ArraySort(Int, Bool), 'leof': z3.ArraySort(Int, Bool), 'em': z3.ArraySort(Int, Bool), 'emi': z3.ArraySort(Int, Int)}
RD = {('gh', 'ri'), ('gh', 'canun')}
TK = {('gh', x) for x in ('ns', 'tend', 'errs', 'lend', 'em', 'emi', 'clsd', 'leof')}


def wsnl(r):
    return And(r != 10, Or(is_space(r), r == 44))


def symc(r):
    return And(Not(is_space(r)), r != 44, *[r != ord(c) for c in '";@^~()[]{}\\'])


def digit(r):
    return And(r >= 48, r <= 57)


def nocrnl(r):
    return And(r != 13, r != 10)


def space_of(r):
    """What unicode.IsSpace says of ASCII."""
    return Implies(And(r >= 0, r < 128), is_space(r) == Or(r == 32, And(r >= 9, r <= 13)))


class LV:
    """Lexer vocabulary: lexer l in view v."""

    def __init__(self, tt, v, l):
        self.tt, self.v, self.l = tt, v, l
        self.e = v.eng
        self.f = lambda n: v.F(l, 'parse.lexer', n)
        self.rd = self.f('input')
        self.ch = self.f('tokens')
        self.val = self.f('val')
        self.ri = z3.Select(v.gh('ri'), self.rd)
        self.si = self.ri - self.val.len
        self.ns = z3.Select(v.gh('ns'), self.ch)
        self.tend = z3.Select(v.gh('tend'), self.ch)
        self.errs = z3.Select(v.gh('errs'), self.ch)
        self.lend = z3.Select(v.gh('lend'), self.ch)
        self.leof = z3.Select(v.gh('leof'), self.ch)
        self.clsd = z3.Select(v.gh('clsd'), self.ch)

    def T(self, n):
        return I(self.tt[n])

    def posat(self, x, i):
        F_ = lambda n: self.v.F(x, 'parse.Pos', n)
        return And(F_('Offset') == pO(self.rd, i), F_('Line') == pL(self.rd, i), F_('Col') == pC(self.rd, i), F_('Name') == self.f('name'))

    def rune(self, i):
        return R_(self.rd, i)

    def vat(self, k):
        """Rune k of the token so far."""
        return z3.Select(self.v.row(self.val.elem, self.val.arr), self.val.off + k)

    def all(self, a, b, pred):
        k = z3.Int('k!l')
        r = R_(self.rd, k)
        return z3.ForAll([k], z3.Implies(And(a <= k, k < b), pred(r)), patterns=[r])

    def pend(self, d=None):
        """The last token sent is a dispatch prefix whose last character comes again."""
        vs = [S.lit(x) for x in (PEND if d is None else [d])]
        pv = tokVal(self.ch, self.ns - 1)
        return And(self.ns > 0, tokTyp(self.ch, self.ns - 1) == self.T('dispatch'), Or(*[pv == x for x in vs]))

    def base(self):
        """[(tag, name, f)] what holds of the lexer between steps."""
        v = self.v
        p, s = self.f('pos'), self.f('start')
        out = [(None, 'the lexer is set up', And(self.l != 0, self.rd != 0, self.ch != 0, p != 0, s != 0, self.ns >= 0)),
               ('C20', 'the channel is open', Not(self.clsd)),
               (None, 'the token lies within what has been read', And(
                   self.val.len >= 0, self.val.len <= self.ri, self.val.off >= 0, self.val.len <= self.val.cap,
                   self.val.arr >= 0, Or(self.val.arr != 0, self.val.cap == 0))),
               ('C02', 'the current position is not shared', And(p != s, Not(z3.Select(v.gh('em'), p)))),
               ('C02', 'the current position is that of the next rune', self.posat(p, self.ri)),
               ('C02', 'the start position is that of the first rune of the token', self.posat(s, self.si))]
        j = z3.Int('j!v')
        row = self.e.named(v.row(self.val.elem, self.val.arr))
        off, ln, si = self.e.named(self.val.off), self.e.named(self.val.len), self.e.named(self.si)
        e = z3.Select(row, j)
        out.append(('C02', 'the token text is what was read', z3.ForAll([j], z3.Implies(And(off <= j, j < off + ln), e == R_(self.rd, si + (j - off))), patterns=[e])))
        k = z3.Int('k!b')
        out.append(('C02', 'what was read was there', z3.ForAll([k], z3.Implies(And(0 <= k, k < self.e.named(self.ri)), KIND(self.rd, k) == 0), patterns=[R_(self.rd, k), KIND(self.rd, k)])))
        x = z3.Int('x!em')
        em, emi = self.e.named(v.gh('em')), self.e.named(v.gh('emi'))
        me = z3.Select(em, x)
        H = lambda n, t: z3.Select(self.e.named(v.H(('F', n, t, ''))), x)
        i = z3.Select(emi, x)
        out.append(('C02', 'positions sent stay as they were', z3.ForAll([x], z3.Implies(me, And(
            x > 0, x < v.nxt, H('Offset', 'int') == pO(self.rd, i), H('Line', 'int') == pL(self.rd, i), H('Col', 'int') == pC(self.rd, i),
            H('Name', 'string') == self.f('name'))), patterns=[me])))
        return out

    def gap(self):
        return And(self.all(self.tend, self.si, wsnl), Implies(self.pend(), self.si == self.tend - 1),
                   Implies(Not(self.pend()), self.si >= self.tend))

    def one(self, *cs):
        return And(self.val.len == 1, Or(*[c(self.rune(self.si)) if callable(c) else self.rune(self.si) == ord(c) for c in cs]))

    def no_pend(self, *but):
        return And(*[Not(self.pend(d)) for d in PEND if d not in but])

    def nextis(self, pred):
        return And(KIND(self.rd, self.ri) == 0, pred(self.rune(self.ri)))

    def J(self, name):
        """[(tag, name, f)] what holds when state function `name` starts."""
        n = name.split('.')[-1]
        out = []
        P = lambda f: Or(self.errs, f)
        pending = {'lexOuter': list(PEND), 'lexString': ['#"'], 'lexKeyword': ['#:']}.get(n, [])
        out.append((None, 'a repeated delimiter comes next', P(self.no_pend(*pending))))
        if n == 'lexOuter':
            out.append((None, 'no token is begun', P(self.val.len == 0)))
            for d, c in PEND.items():
                out.append((None, 'after %s comes %s' % (d, c), P(Implies(self.pend(d), self.nextis(lambda r, c=c: r == ord(c))))))
        else:
            out.append((None, 'a token is begun', P(self.val.len >= 1)))
        out.append(('C02', 'only blanks are left out', P(self.gap())))
        if n == 'lexDispatch':
            out.append((None, 'the token begins with #', P(And(self.val.len == 1, self.vat(I(0)) == ord('#')))))
        sh = {'lexWhitespace': self.one(wsnl), 'lexString': self.one('"'), 'lexCharLiteral': self.one('\\'), 'lexKeyword': self.one(':'),
              'lexDispatch': self.one('#'),
              'lexComment': And(Or(self.one(';'), And(self.val.len == 2, self.rune(self.si) == ord('#'), self.rune(self.si + 1) == ord('!')))),
              'lexNumber': Or(self.one(digit), And(self.one('+', '-'), self.nextis(digit))),
              'lexSymbol': And(self.one(symc), Not(self.one(digit)), *[self.rune(self.si) != ord(c) for c in ":#'`"]),
              }.get(n)
        if n == 'lexSymbol':
            sh = And(sh, Implies(Or(self.rune(self.si) == ord('+'), self.rune(self.si) == ord('-')), Not(self.nextis(digit))))
        if sh is not None:
            out.append(('C02', 'the token begins as it should', P(sh)))
        out.append(('C20', 'the end has not been sent', Not(self.leof)))
        return out

    def shapes(self, ty):
        """[(token type, formula)]: what a token of each type looks like in the source."""
        a, b = self.si, self.ri
        r = self.rune
        stop = lambda pred: Or(KIND(self.rd, b) != 0, Not(pred(r(b))))
        cs = {}
        for nm, c in SINGLES.items():
            cs[nm] = And(b == a + 1, r(a) == ord(c))
        cs['comment'] = And(b > a, Or(r(a) == ord(';'), And(b > a + 1, r(a) == ord('#'), r(a + 1) == ord('!'))), self.all(a, b, nocrnl), stop(nocrnl))
        k = z3.Int('k!s')
        rk = R_(self.rd, k)
        cs['string'] = And(b >= a + 2, r(a) == 34, r(b - 1) == 34, Not(ESC(self.rd, a, b - 1)), z3.ForAll(
            [k], z3.Implies(And(a < k, k < b - 1, rk == 34), ESC(self.rd, a, k)), patterns=[rk]))
        cs['char-literal'] = And(b >= a + 2, r(a) == ord('\\'), self.all(a + 2, b, symc), stop(symc))
        cs['keyword'] = And(b >= a + 1, r(a) == ord(':'), self.all(a, b, symc), stop(symc))
        cs['number'] = And(Or(digit(r(a)), And(b >= a + 2, Or(r(a) == 43, r(a) == 45), digit(r(a + 1)))), self.all(a, b, symc), stop(symc), b > a)
        cs['symbol'] = And(b > a, self.all(a, b, symc), stop(symc), Not(digit(r(a))), *[r(a) != ord(c) for c in ":#'`"],
                           Implies(And(Or(r(a) == 43, r(a) == 45), b >= a + 2), Not(digit(r(a + 1)))))
        cs['octothorpe'] = And(b == a + 1, r(a) == ord('#'), stop(lambda x: And(*[x != ord(c) for c in '{("?:\'_^=!<'])) if False else Or(
            KIND(self.rd, b) != 0, And(*[r(b) != ord(c) for c in '{("?:\'_^=!<'])))
        cs['dispatch'] = And(r(a) == ord('#'), Or(
            And(b == a + 2, Or(*[r(a + 1) == ord(c) for c in '{(":\'_^=?']), Implies(r(a + 1) == ord('?'), Or(KIND(self.rd, b) != 0, r(b) != ord('@')))),
            And(b == a + 3, r(a + 1) == ord('?'), r(a + 2) == ord('@'))))
        return [(nm, Implies(ty == self.T(nm), f)) for nm, f in cs.items()]


def state_fns(prog):
    """Functions that take the lexer and return the next such function."""
    out = []
    for n, g in sorted(prog.fns.items()):
        if g is not None and not g.recv and not g.free and [q['t'] for q in g.params] == [LEX] and list(g.results) == ['parse.stateFn']:
            out.append(n)
    return out


FR = ['F.pos', 'F.start', 'F.lastPos', 'F.val', 'F.Offset', 'F.Line', 'F.Col', 'E.rune', 'E.int32']
TAGS = ('C01', 'C02', 'C20')


def lex_module(R):
    prog = R.prog
    tt = token_types(prog)
    R.ghosts.update(GH)
    R.send_mods = set(TK)
    states = state_fns(prog)
    R.lex_states = states

    def eof_const(eng, st):
        return eng.comp(st, ('G', 'io.EOF', ''))

    # ---- the source
    def newreader(eng, fr, st, a, ins):
        r = new_obj(eng, st, '*bufio.Reader')
        eng.set_gh(st, 'ri', z3.Store(eng.gh(st, 'ri'), r, I(0)))
        eng.set_gh(st, 'canun', z3.Store(eng.gh(st, 'canun'), r, F))
        return r
    R.externs['bufio.NewReader'] = Ext(newreader, RD)

    def readrune(eng, fr, st, a, ins):
        rd = a[0]
        i = z3.Select(eng.gh(st, 'ri'), rd)
        k = KIND(rd, i)
        err = err_or_nil(eng, st)
        r, w = eng.fresh('r', Int), eng.fresh('w', Int)
        eof = eof_const(eng, st)
        eng.fact(And(rd != 0, k >= 0, k <= 2, eof != 0, (err == 0) == (k == 0), (err == eof) == (k == 1),
                     Implies(k != 0, And(r == 0, w == 0)),
                     Implies(k == 0, And(r == R_(rd, i), space_of(r), w == W_(rd, i), w >= 1, w <= 4, r >= 0, r <= 0x10ffff, Implies(r < 128, w == 1)))), st)
        eng.fact(Implies(k == 0, And(pO(rd, i + 1) == pO(rd, i) + w,
                                     pL(rd, i + 1) == z3.If(r == 10, pL(rd, i) + 1, pL(rd, i)),
                                     pC(rd, i + 1) == z3.If(r == 10, I(1), pC(rd, i) + w))), st)
        l = lexer_of(eng)
        if l is not None:
            x = LV(tt, SView(eng, st, None, [], pre=eng.top), l)
            # the definition of "escaped": the rune after a backslash that is not itself escaped
            for s in (x.si,):
                eng.fact(And(Not(ESC(rd, s, s + 1)), Implies(i > s, ESC(rd, s, i + 1) == And(R_(rd, i) == 92, Not(ESC(rd, s, i))))), st)
        eng.set_gh(st, 'ri', z3.Store(eng.gh(st, 'ri'), rd, z3.If(k == 0, i + 1, i)))
        eng.set_gh(st, 'canun', z3.Store(eng.gh(st, 'canun'), rd, k == 0))
        eng.assumed.add('bufio.Reader.ReadRune returns the runes of the input in order; a source that reported its end or an error is not asked to recover')
        return [r, w, err]
    R.externs['(*bufio.Reader).ReadRune'] = Ext(readrune, RD)

    def unread(eng, fr, st, a, ins):
        rd = a[0]
        e = err_or_nil(eng, st)
        c = z3.Select(eng.gh(st, 'canun'), rd)
        i = z3.Select(eng.gh(st, 'ri'), rd)
        eng.fact((e == 0) == c, st)
        eng.set_gh(st, 'ri', z3.Store(eng.gh(st, 'ri'), rd, z3.If(c, i - 1, i)))
        eng.set_gh(st, 'canun', z3.Store(eng.gh(st, 'canun'), rd, F))
        return e
    R.externs['(*bufio.Reader).UnreadRune'] = Ext(unread, RD)

    def lexer_of(eng):
        g = prog.fns.get(eng.stack[0]) if eng.stack else None
        top = eng.top
        for q, a in list(zip(g.params, top.args)) if g else []:
            if q['t'] == LEX and isinstance(a, z3.ExprRef):
                return a
        return None
    R.lexer_of = lexer_of

    def text_lemma(eng, st, x):
        """Runes that match the source encode to its text; runes that spell a dispatch prefix encode to it."""
        row = eng.row(st, x.val.elem, x.val.arr)
        s = S.fromrunes(row, x.val.off, x.val.len)
        q = eng.fresh('q', Int)
        eng.fact(Or(And(x.val.off <= q, q < x.val.off + x.val.len, z3.Select(row, q) != R_(x.rd, x.si + (q - x.val.off))),
                    s == TEXT(x.rd, x.si, x.ri)), st)
        eng.fact(S.slen(s) >= x.val.len, st)
        for d in DISPATCH:
            eng.fact(Implies(And(x.val.len == len(d), *[z3.Select(row, x.val.off + i) == ord(c) for i, c in enumerate(d)]), s == S.lit(d)), st)

    def on_string(eng, st, sl):
        l = lexer_of(eng)
        if l is not None and (set(TAGS) & eng.tags):
            text_lemma(eng, st, LV(tt, SView(eng, st, None, [], pre=eng.top), l))
    R.on_string = on_string

    # ---- tokens
    def send(eng, fr, st, ins):
        ch, tok = eng.val(fr, st, ins['x']), eng.val(fr, st, ins['y'])
        l = lexer_of(eng)
        if l is None or not isinstance(tok, StructV):
            raise Unsupported('channel send')
        x = LV(tt, SView(eng, st, None, [], pre=eng.top), l)
        ty, pos, val = tok.f['typ'], tok.f['pos'], tok.f['val']
        k = x.ns
        eng.fact(And(tokTyp(ch, k) == ty, tokPos(ch, k) == pos, tokVal(ch, k) == val), st)
        eng.oblige(st, And(ch != 0, ch == x.ch), 'tokens go to the channel of the lexer', 'safe')
        if eng.has('C20'):
            eng.oblige(st, Not(x.leof), 'nothing is sent after the end', 'C20')
            eng.oblige(st, Not(x.clsd), 'nothing is sent on a closed channel', 'C20')
        ok = Not(x.errs)
        noerr = ty != x.T('error')
        for i, f in enumerate(stream_facts(PV(tt), ch, k)):
            eng.oblige(st, Implies(ok, f), 'what the parser relies on of a token (%d)' % i, None)
        eng.oblige(st, Implies(And(ok, ty == x.T('eof')), And(KIND(x.rd, x.ri) == 1, x.val.len == 0)),
                   'the end is reported only at the end of the input', None)
        full = And(ok, noerr)
        if eng.has('C02'):
            eng.oblige(st, Implies(full, val == TEXT(x.rd, x.si, x.ri)), 'the text of a token is its source text', 'C02')
            eng.oblige(st, Implies(full, x.posat(pos, x.si)), 'the position of a token is that of its first byte', 'C02')
            eng.oblige(st, Implies(full, x.gap()), 'only blanks are left out between tokens', 'C02')
            eng.oblige(st, Implies(full, Or(*[ty == x.T(n) for n, _ in x.shapes(ty)], ty == x.T('eof'))), 'the token has a type', 'C02')
            for nm, f in x.shapes(ty):
                eng.oblige(st, Implies(full, f), 'a token is as long as it can be: ' + nm, 'C02')
        upd = lambda g, i, y: eng.set_gh(st, g, z3.Store(eng.gh(st, g), i, y))
        upd('tend', ch, z3.If(full, x.ri, x.tend))
        upd('em', pos, z3.If(full, T, z3.Select(eng.gh(st, 'em'), pos)))
        upd('emi', pos, z3.If(full, x.si, z3.Select(eng.gh(st, 'emi'), pos)))
        upd('errs', ch, Or(x.errs, ty == x.T('error')))
        upd('lend', ch, Or(x.lend, ty == x.T('error'), ty == x.T('eof')))
        upd('leof', ch, Or(x.leof, ty == x.T('eof')))
        upd('ns', ch, k + 1)
    R.send = send

    def close(eng, fr, st, ins, ch):
        eng.oblige(st, ch != 0, 'the channel exists', 'safe')
        if not eng.has('C20'):
            return
        l = lexer_of(eng)
        if l is None:
            raise Unsupported('closing a channel')
        x = LV(tt, SView(eng, st, None, [], pre=eng.top), l)
        eng.oblige(st, And(ch == x.ch, Not(x.clsd)), 'the channel of the lexer is closed once', 'C20')
        eng.oblige(st, x.lend, 'the channel is closed after the end or an error has been sent', 'C20')
        eng.set_gh(st, 'clsd', z3.Store(eng.gh(st, 'clsd'), ch, T))
    R.close = close

    # ---- state functions
    X = lambda v, l='l': LV(tt, v, v.a(l) if isinstance(l, str) else l)
    dummy_names = {}

    def names(fn_):
        """(tag, name) of the clauses fn_ yields."""
        if not dummy_names:
            pass
        return fn_

    def base_clauses(add, at, guard=None):
        for i, (tag, nm) in enumerate(BASE):
            add(tag, nm, lambda v, i=i: at(v).base()[i][2])

    BASE = [(None, 'the lexer is set up'), ('C20', 'the channel is open'), (None, 'the token lies within what has been read'), ('C02', 'the current position is not shared'),
            ('C02', 'the current position is that of the next rune'), ('C02', 'the start position is that of the first rune of the token'),
            ('C02', 'the token text is what was read'), ('C02', 'what was read was there'), ('C02', 'positions sent stay as they were')]

    def jn(name):
        n = name.split('.')[-1]
        out = [(None, 'a repeated delimiter comes next')]
        if n == 'lexOuter':
            out += [(None, 'no token is begun')] + [(None, 'after %s comes %s' % x) for x in PEND.items()]
        else:
            out.append((None, 'a token is begun'))
        out.append(('C02', 'only blanks are left out'))
        if n == 'lexDispatch':
            out.append((None, 'the token begins with #'))
        if n in ('lexWhitespace', 'lexString', 'lexCharLiteral', 'lexKeyword', 'lexDispatch', 'lexComment', 'lexNumber', 'lexSymbol'):
            out.append(('C02', 'the token begins as it should'))
        out.append(('C20', 'the end has not been sent'))
        return out

    def fid(v, f):
        return I(v.eng.fname_id(f))

    def state_clauses(add, at, which):
        """which(v): the function that runs next."""
        for f in states:
            for i, (tag, nm) in enumerate(jn(f)):
                add(tag, 'before %s: %s' % (f.split('.')[-1], nm), lambda v, f=f, i=i: Implies(which(v) == fid(v, f), at(v).J(f)[i][2]))
        add(None, 'the next function is one of the lexer', lambda v: Or(which(v) == 0, *[which(v) == fid(v, f) for f in states]))
        add(None, 'scanning stops only after the end or an error has been sent', lambda v: Implies(which(v) == 0, at(v).lend))

    def common(c, at):
        c.tags_only(*TAGS)
        c.raises('parse.inputReadErr')
        c.frame(*FR)
        c.ghost_mods |= RD | TK
        base_clauses(c.req, at)
        base_clauses(c.ens, at)
        c.axiom(None, 'ASCII white space', lambda v: And(space_of(at(v).rune(at(v).si)), space_of(at(v).rune(at(v).si + 1))))
        c.axiom('C02', 'the first rune of a string is not escaped', lambda v: Not(ESC(at(v).rd, at(v).si, at(v).si + 1)))
        same = lambda v: And(at(v).rd == at(v.pre).rd, at(v).ch == at(v.pre).ch, at(v).f('name') == at(v.pre).f('name'))
        c.ens(None, 'input, channel and name stay', same)
        exc(c, at)

    def exc(c, at):
        c.exc(None, 'input, channel and name stay', lambda v: And(at(v).rd == at(v.pre).rd, at(v).ch == at(v.pre).ch, at(v).f('name') == at(v.pre).f('name'), at(v).l != 0,
                                                                  at(v).ch != 0, at(v).ns >= 0, at(v).f('start') != 0))
        c.exc('C20', 'the end has not been sent, and the channel is open', lambda v: And(Not(at(v).leof), Not(at(v).clsd)))
    for f in states:
        g = prog.fns[f]
        ln = g.params[0]['n']
        c = R.fn(f, ln)
        at = lambda v, ln=ln: X(v, ln)
        common(c, at)
        for i, (tag, nm) in enumerate(jn(f)):
            c.req(tag, nm, lambda v, f=f, i=i, at=at: at(v).J(f)[i][2])
        state_clauses(c.ens, at, lambda v: v.ret)

    # a call through a variable of function type
    fc = Contract('state function', ['f', 'l'])
    fc.fnval = True
    common(fc, lambda v: X(v, 'l'))
    fc.mods_override = None
    at = lambda v: X(v, 'l')
    for f in states:
        for i, (tag, nm) in enumerate(jn(f)):
            fc.req(tag, '%s: %s' % (f.split('.')[-1], nm), lambda v, f=f, i=i: Implies(v.a('f') == fid(v, f), at(v).J(f)[i][2]))
    fc.req(None, 'the function is one of the lexer', lambda v: Or(*[v.a('f') == fid(v, f) for f in states]))
    state_clauses(fc.ens, at, lambda v: v.ret)

    def fc_mods(eng):
        r = set(RD | TK)
        for f in states:
            r |= eng.fn_mods(f)
        return r
    fc.mods = fc_mods

    def functype(sig):
        k = prog.types.get(sig)
        if k is None:
            return None
        u = prog.under(sig)
        if u.get('kind') == 'func' and list(u['params']) == [LEX] and list(u['results']) == ['parse.stateFn']:
            return fc
        return R.functypes.get(sig)
    R.functype = functype

    run = prog.fns.get('(*parse.lexer).run')
    if run is not None:
        c = R.fn('(*parse.lexer).run', run.params[0]['n'])
        at = lambda v: X(v, run.params[0]['n'])
        common(c, at)
        c.raises_ = []
        c.exc_ensures_ = []
        c.ensures_ = [k for k in c.ensures_ if k.name == 'input, channel and name stay']
        for i, (tag, nm) in enumerate(jn('parse.lexOuter')):
            c.req(tag, nm, lambda v, i=i: at(v).J('parse.lexOuter')[i][2])
        c.ens(None, 'the end or an error has been sent', lambda v: at(v).lend)
        c.ens('C20', 'the channel is closed', lambda v: at(v).clsd)

        def run_cands(lv):
            out = []
            for ref, t in lv.vars.get('func', []):
                add = lambda tag, nm, g: out.append((nm, (lambda v: g(v)) if lv.eng.has(tag) else skip))
                state_clauses(lambda tag, nm, g, ref=ref: add(tag, '%s %s' % (ref, nm), lambda v, g=g: g(RunView(v, lv))),
                              lambda v: LV(tt, v.sv, lv.eng.top.args[0]), lambda v, ref=ref: v.pv.get(ref))
            return out
        c.cand(run_cands)

    class RunView:
        def __init__(self, pv, lv):
            self.pv, self.sv, self.eng = pv, pv.sv(), lv.eng

    def skip(v):
        raise SkipCand()

    # ---- starting it
    old_go = R.go_stmt

    def go_stmt(eng, fr, st, ins):
        fnv = ins['fn']
        if fnv.get('k') == 'f' and fnv['n'] == '(*parse.lexer).run':
            l = eng.val(fr, st, ins['args'][0])
            l = eng.esc(st, l)
            x = LV(tt, SView(eng, st, None, [], pre=eng.top), l)
            upd = lambda g, y: eng.set_gh(st, g, z3.Store(eng.gh(st, g), x.ch, y))
            upd('ns', I(0)), upd('tend', I(0)), upd('errs', F), upd('lend', F), upd('clsd', F), upd('leof', F)
            if eng.has('C20'):
                eng.set_gh(st, 'live', z3.Store(eng.gh(st, 'live'), x.ch, T))
            eng.set_gh(st, 'em', z3.K(Int, F))
            eng.fact(And(pO(x.rd, I(0)) == 0, pL(x.rd, I(0)) == 1, pC(x.rd, I(0)) == 1))
            con = eng.con_of('(*parse.lexer).run')
            if con is not None and con.only_tags == set(TAGS):
                v = SView(eng, st, con, [l])
                for cl in con.requires_:
                    if eng.has(cl.tag):
                        eng.oblige(st, cl.f(v), 'when the lexer starts: ' + cl.name, cl.tag)
        old_go(eng, fr, st, ins)
    R.go_stmt = go_stmt

    # ---- loops
    def cands(lv):
        eng = lv.eng
        if not (set(TAGS) & eng.tags) or ('gh', 'ri') not in lv.mods and not in_lexer(eng):
            return []
        l = lexer_of(eng)
        if l is None:
            return []
        at = lambda v: LV(tt, v.sv(), l)
        prex = LV(tt, SView(eng, lv.pre, eng.top.con, eng.top.args, pre=eng.top), l)
        ri0, si0 = prex.ri, prex.si
        out = []
        for i, (tag, nm) in enumerate(BASE):
            if eng.has(tag):
                out.append((nm, lambda v, i=i: at(v).base()[i][2]))
        out += [('start of the token stays', lambda v: at(v).si == si0),
                ('input goes on', lambda v: at(v).ri >= ri0),
                ('input, channel and name stay', lambda v: And(at(v).rd == prex.rd, at(v).ch == prex.ch, at(v).f('name') == prex.f('name')))]
        if eng.has('C02'):
            for nm, pred in (('symbol characters', symc), ('blanks', wsnl), ('no line end', nocrnl)):
                out.append((nm + ' since', lambda v, pred=pred: at(v).all(ri0, at(v).ri, pred)))
            k = z3.Int('k!s')
            for ref, _ in lv.vars['bool']:
                out.append(('%s: escaped' % (ref,), lambda v, ref=ref: Or(at(v).errs, v.get(ref) == ESC(prex.rd, si0, at(v).ri))))

            def quotes(v):
                x = at(v)
                rk = R_(x.rd, k)
                return z3.ForAll([k], z3.Implies(And(Not(x.errs), ri0 <= k, k < x.ri, rk == 34), ESC(x.rd, si0, k)), patterns=[rk])
            out.append(('quotes are escaped', quotes))
        # a search through a fixed set of runes
        used = regs_used(lv)
        sls = [lv.pre.env.get((lv.fr.depth, r)) for r in used]
        ints = [lv.pre.env.get((lv.fr.depth, r)) for r, t in used.items() if t in ('rune', 'int32')]
        for s in sls:
            if isinstance(s, Slice) and s.elem in ('rune', 'int32'):
                row0 = eng.row(lv.pre, s.elem, s.arr)
                out += [('the array is not that of the token', lambda v, s=s: at(v).val.arr != s.arr),
                        ('the array does not change', lambda v, s=s, row0=row0: eng.row(v.st, s.elem, s.arr) == row0)]
            if isinstance(s, Slice) and s.elem in ('rune', 'int32') and ival(s.len) is not None and ival(s.len) <= 16:
                for r in ints:
                    if not isinstance(r, z3.ExprRef):
                        continue
                    for ref, _ in lv.vars['int']:
                        for d in (0, 1):
                            out.append(('not among the first of the set', lambda v, ref=ref, d=d, r=r, s=s: And(*[
                                Implies(k < v.get(ref) + d, z3.Select(eng.row(v.st, s.elem, s.arr), s.off + k) != r) for k in range(ival(s.len))])))
        return out

    def in_lexer(eng):
        return lexer_of(eng) is not None
    R.cands.append(cands)
