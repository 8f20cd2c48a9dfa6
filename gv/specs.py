"""Contracts on the functions of cespare/goclj."""
import z3
from terms import *
from prog import Unsupported
from contracts import *
import engine
from engine import Slice, StructV, SView, SkipCand

REPO_PKGS = ('parse', 'format', 'cljfmt', 'goclj')
NODES_T = '[]parse.Node'


class Registry:
    def __init__(self, prog, modules):
        self.prog = prog
        self.ghosts = {}
        self.store_hooks = {}
        self.alloc_array_hook = None
        self.elem_store_hook = None
        self.append_hook = None
        self.seq_hook = None
        self.loop_done = None
        self.map_next_hooks, self.map_set_hooks = [], []
        self.no_cands = []      # loops that need no invariants
        self.chan_mods = set()
        self.send_mods = set()
        self.contracts = {}
        self.lemmas = {}        # obligations about tables: name -> f(eng, st)
        self.ifaces = {}
        self.functypes = {}
        self.externs = externs()
        self.cands = []
        self.opaque_rules = []
        self.dead_rules = []
        self.spec_objs = []
        self.eg, self.fg = {}, {}
        for m in modules:
            m(self)

    # ---- building
    def fn(self, name, *params):
        c = Contract(name, params)
        c.alt = self.contracts.get(name)
        self.contracts[name] = c
        return c

    # ---- used by the engine
    def get(self, name):
        return self.contracts.get(name)

    def iface(self, iface, method):
        return self.ifaces.get((iface, method))

    def functype(self, sig):
        return self.functypes.get(sig)

    def extern(self, name):
        return self.externs.get(name)

    def elem_ghosts(self, el):
        return self.eg.get(el, set())

    def field_ghosts(self, name, t):
        return self.fg.get((name, t), set())

    def invoke_mods(self, eng, iface, method):
        c = self.ifaces.get((iface, method))
        if c is not None:
            return c.mods(eng)
        e = self.externs.get('iface:%s.%s' % (iface, method))
        if e is not None:
            return e.mods
        return set()

    def auto_opaque(self, eng, name, g):
        for f in self.opaque_rules:
            if f(eng, name, g):
                c = Contract(name, [q['n'] for q in g.params])
                c.raises('*')
                c.opaque = True
                return c
        return None

    def loop_candidates(self, lv):
        for f in self.no_cands:
            r = f(lv)
            if r is not None:
                return r
        out = generic_candidates(lv)
        for f in self.cands:
            out += f(lv)
        top = lv.eng.top.con
        for f in top.cand_fns:
            out += f(lv)
        return out

    def go_stmt(self, eng, fr, st, ins):
        raise Unsupported('go statement')

    def make_chan(self, eng, st, r):
        pass

    def send(self, eng, fr, st, ins):
        raise Unsupported('channel send')

    def recv(self, eng, fr, st, ins, ch):
        raise Unsupported('channel receive')

    def close(self, eng, fr, st, ins, ch):
        raise Unsupported('close')

    def on_string(self, eng, st, sl):
        pass

    def on_map_get(self, *a):
        pass

    def on_map_next(self, eng, *a):
        for f in self.map_next_hooks:
            f(eng, *a)

    def on_map_set(self, eng, *a):
        for f in self.map_set_hooks:
            f(eng, *a)

    def no_pre(self, eng):
        """Preconditions of callees without a tag are assumed (checks that are about something else)."""
        return eng.tags <= {'C12'}


# =============================================================== parse.Node
def child_slice(v, r):
    """The Nodes slice of container r in view v."""
    return v.eng.load_key(v.st, ('F', 'Nodes', NODES_T), NODES_T, r)


def wrapped(v, r):
    return v.eng.load_key(v.st, ('F', 'Node', 'parse.Node'), 'parse.Node', r)


def node_module(R):
    """Contracts of the methods of the Node interface, checked for every implementation."""
    prog = R.prog

    def children_post(v):
        eng, r, s = v.eng, v.args[0], v.ret
        cs = child_slice(v.pre, r)
        w = wrapped(v.pre, r)
        return And(
            Implies(eng.in_group(r, 'cont'), And(s.arr == cs.arr, s.off == cs.off, s.len == cs.len, s.cap == cs.cap)),
            Implies(eng.in_group(r, 'wrap'), And(s.arr >= v.pre.nxt, s.arr < v.nxt, s.off == 0, s.len == 1,
                                                 z3.Select(v.row('parse.Node', s.arr), I(0)) == w)),
            Implies(eng.in_group(r, 'leaf'), s.len == 0))

    ic = Contract('parse.Node.Children', ['n'])
    ic.ens(None, 'children are those the node holds', children_post)
    ic.frame()
    ic.mods_override = {('E', 'parse.Node', '')}
    R.ifaces[('parse.Node', 'Children')] = ic

    pc = Contract('parse.Node.Parent', ['n'])
    pc.ens(None, 'parent is the stored link', lambda v: v.ret == v.eng.load_key(v.st, ('F', 'parent', 'parse.Node'), 'parse.Node', v.args[0]))
    pc.pure = True
    R.ifaces[('parse.Node', 'Parent')] = pc

    sp = Contract('parse.Node.setParent', ['n', 'p'])
    PK = ('F', 'parent', 'parse.Node', '')
    sp.mods_override = {PK}
    sp.pure = True
    sp.ens(None, 'sets the parent link of the receiver only',
           lambda v: v.H(PK) == z3.Store(v.pre.H(PK), v.args[0], v.args[1]))
    R.ifaces[('parse.Node', 'setParent')] = sp

    R.node_ifaces = {'Children': ic, 'Parent': pc, 'setParent': sp}
    for t in prog.node_types:
        for m, c in R.node_ifaces.items():
            n = '(*%s).%s' % (t, m)
            k = Contract(n, c.params)
            k.requires_, k.ensures_, k.frame_fresh, k.pure = c.requires_, c.ensures_, c.frame_fresh, c.pure
            R.contracts[n] = k


# =============================================================== errors
def errarg(e, i):
    return fn('errarg', Int, Int, Int)(e, I(i))


def err_at(v, e, pos):
    return Or(*[errarg(e, i) == pos for i in range(4)])


def parse_err_module(R):
    c = R.fn('(*parse.Pos).FormatError', 'p', 'tag', 'msg')
    c.ens(None, 'the error is made from the position', lambda v: And(v.ret != 0, err_at(v, v.ret, v.a('p'))))
    c.frame()
    c = R.fn('(*parse.Tree).errorf', 't', 'pos', 'format', 'args')
    c.raises('parse.parseError')
    c.never_returns = True
    c.frame()
    c.exc(None, 'the error is reported at the position given', lambda v: And(
        v.panic >= v.pre.nxt,
        v.F(v.panic, 'parse.parseError', 'err') != 0, err_at(v, v.F(v.panic, 'parse.parseError', 'err'), v.a('pos'))))
    for n in ('unexpected', 'unexpectedEOF'):
        c = R.fn('(*parse.Tree).' + n, 't', 'tok')
        c.raises('parse.parseError')
        c.never_returns = True
        c.frame()
        c.exc(None, "the error is reported at the token's position", lambda v: And(
            v.panic >= v.pre.nxt,
            v.F(v.panic, 'parse.parseError', 'err') != 0, err_at(v, v.F(v.panic, 'parse.parseError', 'err'), v.a('tok').f['pos'])))


# =============================================================== C06
CHAR_NAMES = {'newline': 10, 'space': 32, 'tab': 9, 'formfeed': 12, 'backspace': 8, 'return': 13}


def char_spec(val):
    """(valid, value) of the text of a character literal without its backslash."""
    n = S.runelen(val)
    row = S.runerow(val)
    first = z3.Select(row, I(0))
    dig = fn('alldigits', Str, Int, Bool)
    num = fn('digitsval', Str, Int, Int)
    rest = S.sub(val, I(1), S.len(val))
    valid, value = F, I(0)
    # one to three octal digits, at most 0377, after o
    o = And(first == ord('o'), S.len(val) >= 2, S.len(val) <= 4, dig(rest, I(8)), num(rest, I(8)) <= 0o377)
    u = And(first == ord('u'), S.len(val) == 5, dig(rest, I(16)))
    valid = Or(o, u)
    value = z3.If(o, num(rest, I(8)), num(rest, I(16)))
    for nm, c in sorted(CHAR_NAMES.items()):
        valid = Or(val == S.lit(nm), valid)
        value = z3.If(val == S.lit(nm), I(c), value)
    valid = z3.If(n == 1, T, And(n > 1, valid))
    value = z3.If(n == 1, first, value)
    return valid, value


def c06_module(R):
    c = R.fn('(*parse.Tree).parseCharLiteral', 't', 'tok')
    c.tags_only('C06')
    c.raises('parse.parseError')
    c.frame()
    val = lambda v: S.sub(v.a('tok').f['val'], I(1), S.len(v.a('tok').f['val']))
    c.req(None, 'the token starts with a backslash', lambda v: S.len(v.a('tok').f['val']) >= 1)
    c.ens('C06', 'only documented spellings are accepted', lambda v: char_spec(val(v))[0])
    c.ens('C06', 'the value is the character Clojure reads', lambda v: v.F(v.ret, 'parse.CharacterNode', 'Val') == char_spec(val(v))[1])
    c.ens('C06', 'the text is kept unchanged', lambda v: v.F(v.ret, 'parse.CharacterNode', 'Text') == v.a('tok').f['val'])
    c.ens('C06', 'position is that of the token', lambda v: And(v.ret != 0, v.F(v.ret, 'parse.CharacterNode', 'Pos') == v.a('tok').f['pos']))
    c.exc('C06', 'only other spellings are rejected', lambda v: Not(char_spec(val(v))[0]))
    c.exc('C06', "rejected at the literal's position", lambda v: And(
        v.F(v.panic, 'parse.parseError', 'err') != 0, err_at(v, v.F(v.panic, 'parse.parseError', 'err'), v.a('tok').f['pos'])))


# =============================================================== bufio (C16)
BW = '*bufio.Writer'


def bw_of(v, p):
    """The bufio.Writer of printer p."""
    return v.F(v.F(p, 'format.Printer', 'bufWriter'), 'format.bufWriter', 'bw')


def bufio_module(R):
    """Assumed contract of bufio.Writer: errors are sticky, Flush reports them, a write that
    reports no error has taken every byte, and a Flush that reports no error has handed
    everything taken to the destination, in order and once."""
    R.ghosts['werr'] = z3.ArraySort(Int, Bool)
    R.ghosts['wdirty'] = z3.ArraySort(Int, Bool)
    R.ghosts['wlog'] = z3.ArraySort(Int, Str)
    R.ghosts['wdest'] = z3.ArraySort(Int, Int)
    gm = {('gh', 'werr'), ('gh', 'wdirty'), ('gh', 'wlog')}

    def write(eng, st, w, text, n):
        """Writing text (n bytes): (n, err)"""
        e = err_or_nil(eng, st)
        k = eng.fresh('n', Int)
        log2 = eng.fresh('text', Str)
        was = z3.Select(eng.gh(st, 'werr'), w)
        eng.fact(And(z3.Implies(was, e != 0), z3.Implies(e == 0, And(log2 == S.cat(z3.Select(eng.gh(st, 'wlog'), w), text), k == n))), st)
        eng.set_gh(st, 'werr', z3.Store(eng.gh(st, 'werr'), w, e != 0))
        eng.set_gh(st, 'wdirty', z3.Store(eng.gh(st, 'wdirty'), w, T))
        eng.set_gh(st, 'wlog', z3.Store(eng.gh(st, 'wlog'), w, log2))
        return k, e

    def ws(eng, fr, st, a, ins):
        return list(write(eng, st, a[0], a[1], S.len(a[1])))

    def wb(eng, fr, st, a, ins):
        return write(eng, st, a[0], byte_str(a[1]), I(1))[1]

    def wr(eng, fr, st, a, ins):
        return list(write(eng, st, a[0], S.fromrune(a[1]), S.slen(S.fromrune(a[1]))))

    def wbs(eng, fr, st, a, ins):
        t = eng.fresh('bytes', Str)
        return list(write(eng, st, a[0], t, S.slen(t)))

    def fl(eng, fr, st, a, ins):
        e = err_or_nil(eng, st)
        w = a[0]
        eng.fact(z3.Implies(z3.Select(eng.gh(st, 'werr'), w), e != 0), st)
        eng.set_gh(st, 'werr', z3.Store(eng.gh(st, 'werr'), w, e != 0))
        eng.set_gh(st, 'wdirty', z3.Store(eng.gh(st, 'wdirty'), w, e != 0))
        return e

    def nw(eng, fr, st, a, ins):
        r = new_obj(eng, st, BW)
        eng.set_gh(st, 'werr', z3.Store(eng.gh(st, 'werr'), r, F))
        eng.set_gh(st, 'wdirty', z3.Store(eng.gh(st, 'wdirty'), r, F))
        eng.set_gh(st, 'wlog', z3.Store(eng.gh(st, 'wlog'), r, S.lit('')))
        eng.set_gh(st, 'wdest', z3.Store(eng.gh(st, 'wdest'), r, a[0]))
        return r
    R.externs['(*bufio.Writer).WriteString'] = Ext(ws, gm)
    R.externs['(*bufio.Writer).WriteByte'] = Ext(wb, gm)
    R.externs['(*bufio.Writer).WriteRune'] = Ext(wr, gm)
    R.externs['(*bufio.Writer).Write'] = Ext(wbs, gm)
    R.externs['(*bufio.Writer).Flush'] = Ext(fl, gm)
    R.externs['bufio.NewWriter'] = Ext(nw, gm | {('gh', 'wdest')})

    for nm in ('writeString', 'writeByte'):
        c = R.fn('(*format.bufWriter).' + nm, 'bw', 's')
        c.tags_only('C16')
        c.raises('format.bufErr')
        c.frame()
        bw = lambda v: v.F(v.a('bw'), 'format.bufWriter', 'bw')
        text = (lambda v: v.a('s')) if nm == 'writeString' else (lambda v: byte_str(v.a('s')))
        ln = (lambda v: S.len(v.a('s'))) if nm == 'writeString' else (lambda v: I(1))
        c.ens('C16', 'no write error is left unreported', lambda v, bw=bw: Not(z3.Select(v.gh('werr'), bw(v))))
        c.ens('C16', 'exactly the bytes given are written', lambda v, bw=bw, text=text: v.gh('wlog') == z3.Store(
            v.pre.gh('wlog'), bw(v), S.cat(z3.Select(v.pre.gh('wlog'), bw(v)), text(v))))
        c.ens('C16', 'other writers are untouched', lambda v, bw=bw: v.gh('werr') == z3.Store(v.pre.gh('werr'), bw(v), F))
        c.ens('C16', 'returns the number of bytes written', lambda v, ln=ln: v.ret == ln(v))


def byte_str(b):
    """The one-byte string of b (ASCII in this code base)."""
    c = ival(b)
    return S.lit(bytes([c])) if c is not None and 0 <= c < 256 else fn('sfrombyte', Int, Str)(b)


def uses_recover(g):
    return any(i['op'] in ('Call', 'Defer') and i['fn'].get('k') == 'b' and i['fn'].get('n') == 'recover'
               for b in g.blocks for i in b['ins'])


def noerr(v, p='p'):
    return Not(z3.Select(v.gh('werr'), bw_of(v, v.a(p))))


def c16_module(R):
    def rule(eng, name, g):
        return 'C16' in eng.tags and not g.free and not uses_recover(g) and ('gh', 'werr') not in eng.fn_mods(name)
    R.opaque_rules.append(rule)
    for nm in ('printNode', 'printSequence'):
        c = R.fn('(*format.Printer).' + nm, 'p', 'n', 'w', 's')
        c.tags_only('C16')
        c.raises('*')
        c.req('C16', 'no write has failed so far', noerr)
        c.ens('C16', 'no write has failed when printing returns', noerr)
    c = R.fn('(*format.Printer).PrintTree', 'p', 't')
    c.tags_only('C16')
    c.raises('*')
    c.req('C16', 'the writer has not failed before', noerr)
    c.ens('C16', 'a nil error means no write failed', lambda v: Implies(v.ret == 0, noerr(v)))
    c.ens('C16', 'a nil error means everything was flushed', lambda v: Implies(v.ret == 0, Not(z3.Select(v.gh('wdirty'), bw_of(v, v.a('p'))))))
    c.exc('C16', 'a write failure does not escape as a panic', lambda v: v.eng.typeOf(v.panic) != v.eng.type_id('format.bufErr'))
    c = R.fn('format.NewPrinter', 'w')
    c.tags_only('C16')
    c.ens('C16', 'the printer writes to the destination given', lambda v: And(
        v.ret != 0, z3.Select(v.gh('wdest'), bw_of(v, v.ret)) == v.a('w'), noerr_ret(v)))

    def cands(lv):
        if ('gh', 'werr') not in lv.mods:
            return []
        top = lv.eng.top
        if 'p' not in top.con.params:
            return []
        return [('no write has failed', lambda v: noerr(v.sv()))]
    R.cands.append(cands)


def noerr_ret(v):
    return Not(z3.Select(v.gh('werr'), bw_of(v, v.ret)))


from spec_parse import parse_module
from spec_lex import lex_module
from spec_style import style_module
from spec_conf import conf_module
from spec_cli import cli_module
from spec_print import print_module
from spec_doc import doc_module
from spec_layout import layout_module
from spec_cols import cols_module
from spec_ns import ns_module
from spec_det import det_module
MODULES = [node_module, parse_err_module, c06_module, bufio_module, c16_module, parse_module, lex_module, style_module, conf_module, cli_module, print_module, doc_module, layout_module, cols_module, ns_module, det_module]
