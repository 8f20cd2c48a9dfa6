"""Contract language, generic loop-invariant candidates, contracts of library functions."""
import z3
from terms import *
from prog import Unsupported
import engine
from engine import (Slice, StructV, TupleV, Loc, Cell, LitSlice, Clo, FieldLV, SView, SkipCand)

NODE = 'parse.Node'


class Clause:
    __slots__ = ('tag', 'name', 'f', 'trusted')

    def __init__(self, tag, name, f, trusted=False):
        self.tag, self.name, self.f, self.trusted = tag, name, f, trusted


class Contract:
    def __init__(self, name, params=()):
        self.name, self.params = name, list(params)
        self.requires_, self.ensures_, self.exc_ensures_ = [], [], []
        self.raises_ = []
        self.mods_override = None
        self.ghost_mods = set()
        self.frame_fresh = None
        self.pure = False
        self.result_fn = None
        self.never_returns = False
        self.notes = []
        self.cand_fns = []
        self.only_tags = None
        self.alt = None         # an earlier contract of the same function, for other tags
        self.opaque = False
        self.axioms_ = []
        self.ghost_exit = None
        self.cores = False      # loop invariants are proved one by one, and again only when what was used has been dropped
        self.split = []         # predicates by which a loop invariant (cores) may be proved in cases
        self.work = 1           # how much harder than usual its loop invariants are

    def axiom(self, tag, name, f):
        """A definition, assumed where the function is verified."""
        self.axioms_.append(Clause(tag, name, f))
        return self

    def req(self, tag, name, f):
        self.requires_.append(Clause(tag, name, f))
        return self

    def ens(self, tag, name, f, trusted=False):
        self.ensures_.append(Clause(tag, name, f, trusted))
        if trusted:
            self.notes.append('assumed: %s: %s' % (self.name, name))
        return self

    def exc(self, tag, name, f):
        self.exc_ensures_.append(Clause(tag, name, f))
        return self

    def raises(self, *ts):
        self.raises_ += ts
        return self

    def frame(self, *pats):
        self.frame_fresh = list(pats)
        return self

    def returns(self, f):
        self.result_fn = f
        return self

    def cand(self, f):
        self.cand_fns.append(f)
        return self

    def tags_only(self, *tags):
        """The contract exists only for checks with one of these tags (else the body is used)."""
        self.only_tags = set(tags)
        return self

    def applies(self, eng):
        return self.only_tags is None or bool(self.only_tags & eng.tags)

    def mods(self, eng):
        r = set(self.ghost_mods)
        if self.mods_override is not None:
            r |= set(self.mods_override)
        return r


class Ext:
    """A function outside the repository, described by an assumed contract."""

    def __init__(self, run, mods=(), note=None):
        self.run_, self.mods, self.note = run, set(mods), note

    def run(self, eng, fr, st, args, ins):
        r = self.run_(eng, fr, st, args, ins)
        if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], list) and isinstance(r[1], list):
            return r
        vals = r if isinstance(r, list) else [r]
        return [(st, vals)], []


# ---------------------------------------------------------------- helpers
def new_obj(eng, st, tname):
    r = eng.alloc_ref(st)
    eng.fact(eng.typeOf(r) == eng.type_id(tname), st)
    return r


def new_err(eng, st, args=()):
    """A fresh non-nil error; errarg(e, i) are the values it was made from."""
    r = new_obj(eng, st, '*errors.opaque')
    ea = fn('errarg', Int, Int, Int)
    for i, a in enumerate(args):
        if isinstance(a, z3.ExprRef) and a.sort() == Int:
            eng.fact(ea(r, I(i)) == a, st)
    return r


def slice_vals(eng, st, v):
    """Python list of the values in a literal slice, or None."""
    if isinstance(v, LitSlice):
        lo = st.locs[v.id]
        if lo.ref is None:
            return list(lo.val[v.lo:v.hi])
    if isinstance(v, Slice) and ival(v.len) == 0:
        return []
    return None


def split(eng, st, cond):
    a, b = st.copy(), st
    a.reach = eng.named_reach(And(st.reach, cond))
    b.reach = eng.named_reach(And(st.reach, Not(cond)))
    return a, b


def err_or_nil(eng, st):
    e = eng.fresh('err', Int)
    eng.fact(And(e >= 0, e < st.nxt, (e == 0) == (eng.typeOf(e) == 0)), st)
    return e


# ---------------------------------------------------------------- generic candidates
def regs_used(lv):
    f = lv.fn
    used = {}
    for b in lv.body:
        for ins in f.blocks[b]['ins']:
            for a in lv.eng.operands(ins):
                if a['k'] == 'r' and f.defblock.get(a['n']) not in lv.body:
                    used[a['n']] = a['t']
            if ins['op'] == 'Phi':
                for a in ins['args']:
                    if a['k'] == 'r' and f.defblock.get(a['n']) not in lv.body:
                        used[a['n']] = a['t']
    return used


def generic_candidates(lv):
    eng, pre, p = lv.eng, lv.pre, lv.eng.prog
    out = []
    used = regs_used(lv)
    bounds = []
    seen = set()

    def add_bound(nm, t):
        if t.get_id() not in seen:
            seen.add(t.get_id())
            bounds.append((nm, t))
    for n, t in sorted(used.items()):
        v = pre.env.get((lv.fr.depth, n))
        if isinstance(v, Slice):
            add_bound('len(%s)' % n, v.len)
        elif isinstance(v, LitSlice):
            add_bound('len(%s)' % n, I(v.hi - v.lo))
        elif isinstance(v, z3.ExprRef) and v.sort() == Int and p.kind(t) == 'basic':
            add_bound(n, v)
        elif isinstance(v, z3.ExprRef) and v.sort() == Str:
            add_bound('len(%s)' % n, S.len(v))
    for ref, t in lv.vars['int']:
        nm = ref[1][1] if ref[0] == 'env' else ref[1]

        def g(ref=ref):
            return lambda v: v.get(ref)
        e = (pre.env if ref[0] == 'env' else pre.cells)[ref[1]]
        out.append(('%s >= entry' % nm, lambda v, ref=ref, e=e: v.get(ref) >= e))
        out.append(('%s <= entry' % nm, lambda v, ref=ref, e=e: v.get(ref) <= e))
        out.append(('%s >= 0' % nm, lambda v, ref=ref: v.get(ref) >= 0))
        for bn, b in bounds:
            if b.eq(e):
                continue
            out.append(('%s < %s' % (nm, bn), lambda v, ref=ref, b=b: v.get(ref) < b))
            out.append(('%s <= %s' % (nm, bn), lambda v, ref=ref, b=b: v.get(ref) <= b))
    for ref, t in lv.vars['slice']:
        nm = ref[1][1] if ref[0] == 'env' else ref[1]
        e = (pre.env if ref[0] == 'env' else pre.cells)[ref[1]]
        if isinstance(e, LitSlice):
            e = eng.esc(pre, e)
        out.append(('%s.arr same' % nm, lambda v, ref=ref, e=e: v.get(ref).arr == e.arr))
        out.append(('%s.off same' % nm, lambda v, ref=ref, e=e: v.get(ref).off == e.off))
        out.append(('%s.off >=' % nm, lambda v, ref=ref, e=e: v.get(ref).off >= e.off))
        out.append(('%s suffix' % nm, lambda v, ref=ref, e=e: v.get(ref).off + v.get(ref).len == e.off + e.len))
        out.append(('%s.len >=' % nm, lambda v, ref=ref, e=e: v.get(ref).len >= e.len))
        out.append(('%s.len <=' % nm, lambda v, ref=ref, e=e: v.get(ref).len <= e.len))
        out.append(('%s cap end' % nm, lambda v, ref=ref, e=e: v.get(ref).off + v.get(ref).cap == e.off + e.cap))
        top0 = eng.top.st.nxt
        out.append(('%s fresh' % nm, lambda v, ref=ref, top=top0: z3.Or(v.get(ref).arr >= top, z3.And(v.get(ref).arr == 0, v.get(ref).cap == 0))))
        out.append(('%s valid' % nm, lambda v, ref=ref: z3.And(v.get(ref).len >= 0, v.get(ref).off >= 0, v.get(ref).len <= v.get(ref).cap, v.get(ref).arr >= 0, v.get(ref).arr < v.st.nxt)))
        for r2, t2 in lv.vars['int']:
            out.append(('%s.len == %s' % (nm, r2[1][1]), lambda v, ref=ref, r2=r2: v.get(ref).len == v.get(r2)))
            out.append(('%s.len <= %s' % (nm, r2[1][1]), lambda v, ref=ref, r2=r2: v.get(ref).len <= v.get(r2)))
            out.append(('%s.len <= %s + 1' % (nm, r2[1][1]), lambda v, ref=ref, r2=r2: v.get(ref).len <= v.get(r2) + 1))
    for ref, t in lv.vars['bool']:
        nm = ref[1][1] if ref[0] == 'env' else ref[1]
        e = (pre.env if ref[0] == 'env' else pre.cells)[ref[1]]
        out.append(('%s same' % nm, lambda v, ref=ref, e=e: v.get(ref) == e))
    for ref, t in lv.vars['ref']:
        nm = ref[1][1] if ref[0] == 'env' else ref[1]
        e = (pre.env if ref[0] == 'env' else pre.cells)[ref[1]]
        if not isinstance(e, z3.ExprRef):
            continue
        out.append(('%s same' % nm, lambda v, ref=ref, e=e: v.get(ref) == e))
        out.append(('%s non-nil' % nm, lambda v, ref=ref: v.get(ref) != 0))
    for ref, t in lv.vars['str']:
        nm = ref[1][1] if ref[0] == 'env' else ref[1]
        e = (pre.env if ref[0] == 'env' else pre.cells)[ref[1]]
        out.append(('%s same' % nm, lambda v, ref=ref, e=e: v.get(ref) == e))
    for it in iters(lv):
        out.append(('visited keys are in the map', lambda v, it=it: visited_in(v, it)))
    for k in sorted(lv.mods, key=str):
        kn = '.'.join(str(x) for x in k)
        pk = eng.comp(pre, k)
        out.append(('%s same' % kn, lambda v, k=k, pk=pk: eng.comp(v.st, k) == pk))
        if k[0] in ('F', 'E', 'MD', 'MV', 'BOX'):
            top = eng.top.st
            tk = eng.comp(top, k)
            out.append(('%s of old objects same' % kn, lambda v, k=k, tk=tk, n=top.nxt: eng.older_same(eng.comp(v.st, k), tk, n)))
            if not tk.eq(pk):
                out.append(('%s of older objects same' % kn, lambda v, k=k, pk=pk, n=pre.nxt: eng.older_same(eng.comp(v.st, k), pk, n)))
    return out


def array_candidates(lv, el):
    """Arrays of the slices of el used but not changed by the loop keep their contents; growing slices have other arrays."""
    eng, pre, out, seen = lv.eng, lv.pre, [], set()
    keys = [('E', el, pt) for pt in eng.parts(el)]
    if not any(k in lv.mods for k in keys):
        return []
    for n, x in sorted(pre.env.items(), key=str):
        if not isinstance(x, Slice) or x.elem != el or x.arr.get_id() in seen:
            continue
        seen.add(x.arr.get_id())
        arr = eng.named(x.arr)
        for k in keys:
            out.append(('contents of %s same' % (n,), lambda v, k=k, a=arr, e=eng.comp(pre, k): z3.Select(eng.comp(v.st, k), a) == z3.Select(e, a)))
        for ref, t in lv.vars['slice']:
            if eng.prog.elem(t) == el:
                out.append(('%s is not %s' % (ref[1], n), lambda v, ref=ref, a=arr: v.get(ref).arr != a))
    return out


def iters(lv):
    """The iterators over maps which the loop advances."""
    out, seen = [], set()
    for x in lv.pre.env.values():
        if isinstance(x, engine.Iter) and x.kind == 'map' and x.eid not in seen and \
                lv.head.cells.get(('it', x.eid)) is not lv.pre.cells.get(('it', x.eid)):
            seen.add(x.eid)
            out.append(x)
    return out


def outer_phis(lv, t):
    """(name, value) of the variables of type t of the loops around this one."""
    out = []
    for i, b in enumerate(lv.fn.blocks):
        for ins in b['ins']:
            if ins['op'] == 'Phi' and ins['t'] == t and i not in lv.body:
                e = lv.pre.env.get((lv.fr.depth, ins['n']))
                if isinstance(e, z3.ExprRef):
                    out.append((ins['n'], e))
    return out


def counters(lv):
    """(register, first) of the variables that every round of the loop increases by one."""
    out = []
    defs = {i['n']: i for b in lv.body for i in lv.fn.blocks[b]['ins'] if i.get('n')}
    for r, t in lv.vars['int']:
        i = defs.get(r[1][1]) if r[0] == 'env' else None
        if i is None or i['op'] != 'Phi':
            continue
        back = {a.get('n') for a in i['args'] if a['k'] == 'r' and a.get('n') in defs}
        d = defs.get(back.pop()) if len(back) == 1 else None
        if d is None or d['op'] != 'BinOp' or d['o'] != '+':
            continue
        xs = lv.eng.operands(d)
        if any(x['k'] == 'r' and x['n'] == i['n'] for x in xs) and any(x['k'] == 'c' and str(x.get('v')) == '1' for x in xs):
            out.append((r, lv.pre.env[r[1]]))
    return out


def visited_in(v, it):
    """Every key visited is in the map."""
    eng = v.eng
    q = z3.Const('q!v', eng.sort_of(eng.prog.under(it.mt)['key']))
    vis = eng.named(v.st.cells[('it', it.eid)])
    return z3.ForAll([q], z3.Implies(z3.Select(vis, q), And(it.m != 0, z3.Select(eng.map_dom(v.st, it.mt, it.m), q))),
                     patterns=[z3.Select(vis, q)])


# ---------------------------------------------------------------- library functions
def is_space(r):
    return fn('unicode.IsSpace', Int, Bool)(r)


def space_facts(eng, r):
    f = is_space(r)
    ascii_sp = z3.Or(r == 32, z3.And(r >= 9, r <= 13))
    eng.fact(z3.Implies(z3.And(r >= 0, r < 128), f == ascii_sp))
    eng.fact(z3.Implies(z3.Or(r == 0x85, r == 0xA0), f))
    return f


def externs():
    E = {}

    def reg(*names, **kw):
        def d(f):
            for n in names:
                E[n] = Ext(f, kw.get('mods', ()), kw.get('note'))
            return f
        return d

    @reg('unicode.IsSpace')
    def _(eng, fr, st, a, ins):
        return space_facts(eng, a[0])

    @reg('strings.HasPrefix')
    def _(eng, fr, st, a, ins):
        return S.prefix(a[0], a[1])

    @reg('strings.HasSuffix')
    def _(eng, fr, st, a, ins):
        return S.suffix(a[0], a[1])

    @reg('strings.TrimPrefix')
    def _(eng, fr, st, a, ins):
        return S.trimprefix(a[0], a[1])

    @reg('strings.Repeat')
    def _(eng, fr, st, a, ins):
        eng.oblige(st, a[1] >= 0, 'strings.Repeat: count not negative', 'safe')
        return S.repeat(a[0], a[1])

    @reg('strings.LastIndex')
    def _(eng, fr, st, a, ins):
        return S.lastindex(a[0], a[1])

    @reg('strings.Index')
    def _(eng, fr, st, a, ins):
        return S.index(a[0], a[1])

    @reg('strings.LastIndexByte', 'strings.IndexRune', 'strings.IndexByte')
    def _(eng, fr, st, a, ins):
        c = ival(a[1])
        nm = ins['fn']['n']
        if c is None or c >= 128:
            raise Unsupported('index of a non-constant character')
        return (S.lastindex if 'Last' in nm else S.index)(a[0], S.lit(chr(c)))

    @reg('strings.Contains', 'strings.ContainsRune')
    def _(eng, fr, st, a, ins):
        if a[1].sort() == Int:
            c = ival(a[1])
            if c is None or c >= 128:
                raise Unsupported('strings.ContainsRune of a non-constant character')
            return S.index(a[0], S.lit(chr(c))) >= 0
        return S.index(a[0], a[1]) >= 0

    @reg('strings.IndexAny')
    def _(eng, fr, st, a, ins):
        v = S.value(a[1])
        if v is None:
            raise Unsupported('strings.IndexAny with a non-constant set')
        r = fn('sindexany', Str, Str, Int)(a[0], a[1])
        s = a[0]
        eng.fact(And(r >= -1, r < z3.If(S.len(s) > 0, S.len(s), I(1))))
        c0 = S.char(s, I(0))
        eng.fact((r == 0) == z3.And(S.len(s) > 0, Or(*[c0 == x for x in v])))
        return r

    @reg('strings.Replace', 'strings.ReplaceAll')
    def _(eng, fr, st, a, ins):
        return fn('sreplace', Str, Str, Str, Str)(a[0], a[1], a[2])

    for nm in ('TrimSpace', 'ToLower', 'ToUpper'):
        @reg('strings.' + nm)
        def _(eng, fr, st, a, ins, nm=nm):
            r = fn('s' + nm, Str, Str)(a[0])
            if nm == 'TrimSpace':
                eng.fact(S.slen(r) <= S.len(a[0]))
            return r

    @reg('fmt.Sprintf', 'fmt.Sprint', 'fmt.Sprintln')
    def _(eng, fr, st, a, ins):
        return eng.fresh('sprintf', Str)

    @reg('fmt.Errorf', 'errors.New')
    def _(eng, fr, st, a, ins):
        vs = slice_vals(eng, st, a[1]) if len(a) > 1 else []
        vs = [eng.esc(st, v) for v in (vs or [])]
        return new_err(eng, st, [v for v in vs])

    @reg('strconv.ParseUint', 'strconv.ParseInt')
    def _(eng, fr, st, a, ins):
        s, base, bits = a
        e = eng.fresh('err', Int)
        n = eng.fresh('n', Int)
        b, w = ival(base), ival(bits)
        if b is None or b == 0 or w is None or w == 0:
            raise Unsupported('strconv.ParseUint with variable base')
        dig = fn('alldigits', Str, Int, Bool)(s, base)
        num = fn('digitsval', Str, Int, Int)(s, base)
        eng.fact(num >= 0)
        if 'ParseUint' in ins['fn']['n']:
            good = z3.And(dig, num < 2 ** w)
            eng.fact(z3.And((e == 0) == good, z3.Implies(good, n == num), n >= 0))
        else:
            # a sign is accepted too
            good = z3.And(dig, num < 2 ** (w - 1))
            eng.fact(z3.And(z3.Implies(good, z3.And(e == 0, n == num)),
                            z3.Implies(z3.And(e == 0, z3.Not(good)), z3.Not(dig))))
        eng.fact(And(e >= 0, e < st.nxt, (e == 0) == (eng.typeOf(e) == 0)), st)
        eng.fact(z3.Implies(dig, S.slen(s) >= 1))
        for k in range(1, 8):
            if b ** k < 2 ** w:
                eng.fact(z3.Implies(z3.And(dig, S.slen(s) <= k), num < b ** k))
        return [n, e]

    @reg('strconv.Atoi')
    def _(eng, fr, st, a, ins):
        n = eng.fresh('n', Int)
        return [n, err_or_nil(eng, st)]

    @reg('io.ReadFull')
    def _(eng, fr, st, a, ins):
        raise Unsupported('io.ReadFull')

    @reg('log.Fatal', 'log.Fatalf', 'log.Fatalln', 'os.Exit')
    def _(eng, fr, st, a, ins):
        return [], []

    @reg('log.Println', 'log.Printf', 'log.Print')
    def _(eng, fr, st, a, ins):
        return []

    @reg('iface:error.Error')
    def _(eng, fr, st, a, ins):
        return eng.fresh('msg', Str)

    @reg('iface:parse.Node.Position')
    def _(eng, fr, st, a, ins):
        r = fn('nodepos', Int, Int)(a[0])
        k = ('F', 'Pos', '*parse.Pos')
        return eng.load_key(st, k, '*parse.Pos', a[0])

    @reg('iface:parse.Node.String')
    def _(eng, fr, st, a, ins):
        return eng.fresh('str', Str)
    return E
