"""Sorts, string theory (uninterpreted, with lemma instances) and z3 helpers."""
import z3

Int = z3.IntSort()
Bool = z3.BoolSort()
Str = z3.DeclareSort('Str')
I = z3.IntVal
T, F = z3.BoolVal(True), z3.BoolVal(False)


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return F
    if not xs:
        return T
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return T
    if not xs:
        return F
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if z3.is_true(x):
        return F
    if z3.is_false(x):
        return T
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return T
    if z3.is_false(b):
        return Not(a)
    return z3.Implies(a, b)


def Ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def Eq(a, b):
    if a.eq(b):
        return T
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    if a.sort() == Str:
        ca, cb = S.value(a), S.value(b)
        if ca is not None and cb is not None:
            return z3.BoolVal(ca == cb)
    return a == b


def simp(e):
    return z3.simplify(e)


def ival(e):
    """Concrete int of e, or None."""
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    s = z3.simplify(e)
    return s.as_long() if z3.is_int_value(s) else None


def fn(name, *sorts):
    return z3.Function(name, *sorts)


class Strings:
    """Strings are elements of an uninterpreted sort.  Go string operations are
    uninterpreted functions; instances of (true) facts about them are added for
    the terms that occur.  Byte strings: a Go string is its byte sequence."""

    def __init__(self):
        self.lits = {}   # python bytes -> const
        self.rev = {}    # const name -> python bytes
        self.slen = fn('slen', Str, Int)
        self.at = fn('sat', Str, Int, Int)
        self.sub_ = fn('ssub', Str, Int, Int, Str)
        self.cat_ = fn('scat', Str, Str, Str)
        self.lt_ = fn('slt', Str, Str, Bool)
        self.prefix_ = fn('sprefix', Str, Str, Bool)
        self.suffix_ = fn('ssuffix', Str, Str, Bool)
        self.index_ = fn('sindex', Str, Str, Int)       # first occurrence, -1
        self.lastindex_ = fn('slastindex', Str, Str, Int)
        self.trimprefix_ = fn('strimprefix', Str, Str, Str)
        self.repeat_ = fn('srepeat', Str, Int, Str)
        self.fromrune = fn('sfromrune', Int, Str)       # string(r)
        self.fromrunes = fn('sfromrunes', z3.ArraySort(Int, Int), Int, Int, Str)
        self.runelen = fn('srunelen', Str, Int)
        self.runerow = fn('srunerow', Str, z3.ArraySort(Int, Int))

    def lit(self, s):
        if isinstance(s, str):
            s = s.encode('utf-8', 'surrogateescape')
        if s not in self.lits:
            c = z3.Const('str!%d!%s' % (len(self.lits), ''.join(ch if ch.isalnum() else '_' for ch in s.decode('latin1'))[:24]), Str)
            self.lits[s] = c
            self.rev[c.decl().name()] = s
        return self.lits[s]

    def value(self, t):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return self.rev.get(t.decl().name())
        return None

    def len(self, s):
        v = self.value(s)
        if v is not None:
            return I(len(v))
        if self.iscat(s):
            return self.len(s.arg(0)) + self.len(s.arg(1))
        return self.slen(s)

    def iscat(self, s):
        return z3.is_app(s) and s.decl().eq(self.cat_)

    def parts(self, s):
        if self.iscat(s):
            return self.parts(s.arg(0)) + self.parts(s.arg(1))
        return [s]

    def cat(self, a, b):
        ps = []
        for x in self.parts(a) + self.parts(b):
            v = self.value(x)
            if v == b'':
                continue
            if ps and v is not None and self.value(ps[-1]) is not None:
                ps[-1] = self.lit(self.value(ps[-1]) + v)
            else:
                ps.append(x)
        if not ps:
            return self.lit(b'')
        r = ps[-1]
        for x in reversed(ps[:-1]):
            r = self.cat_(x, r)
        return r

    def sub(self, s, lo, hi):
        v, a, b = self.value(s), ival(lo), ival(hi)
        if v is not None and a is not None and b is not None and 0 <= a <= b <= len(v):
            return self.lit(v[a:b])
        if a == 0 and z3.simplify(hi).eq(z3.simplify(self.len(s))):
            return s
        # sub of sub
        if z3.is_app(s) and s.decl().eq(self.sub_):
            return self.sub_(s.arg(0), z3.simplify(s.arg(1) + lo), z3.simplify(s.arg(1) + hi))
        return self.sub_(s, z3.simplify(lo), z3.simplify(hi))

    def char(self, s, i):
        v, a = self.value(s), ival(i)
        if v is not None and a is not None and 0 <= a < len(v):
            return I(v[a])
        return self.at(s, i)

    def _two(self, f, pf, a, b):
        va, vb = self.value(a), self.value(b)
        if va is not None and vb is not None:
            r = pf(va, vb)
            return z3.BoolVal(r) if isinstance(r, bool) else (I(r) if isinstance(r, int) else self.lit(r))
        return f(a, b)

    def lt(self, a, b):
        return self._two(self.lt_, lambda x, y: x < y, a, b)

    def prefix(self, s, p):
        return self._two(self.prefix_, lambda x, y: x.startswith(y), s, p)

    def suffix(self, s, p):
        return self._two(self.suffix_, lambda x, y: x.endswith(y), s, p)

    def index(self, s, t):
        return self._two(self.index_, lambda x, y: x.find(y), s, t)

    def lastindex(self, s, t):
        return self._two(self.lastindex_, lambda x, y: x.rfind(y), s, t)

    def trimprefix(self, s, p):
        return self._two(self.trimprefix_, lambda x, y: x[len(y):] if x.startswith(y) else x, s, p)

    def repeat(self, s, n):
        return self.repeat_(s, n)


S = Strings()


def subterms(es, seen=None):
    """All subterms (apps) of the given expressions that contain no bound variables."""
    seen = {} if seen is None else seen
    out = []
    st = list(es)
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen[k] = e
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            out.append(e)
            st.extend(e.children())
    return out


def string_lemmas(terms):
    """Ground instances of facts about strings for the given ground terms."""
    fs = []
    strs = {}
    for t in terms:
        if t.sort() == Str:
            strs[t.get_id()] = t
    empty = S.lit(b'')
    lits = [(v, c) for v, c in S.lits.items() if c.get_id() in strs or v == b'']
    if len(lits) > 1:
        fs.append(z3.Distinct(*[c for _, c in lits]))
    for v, c in lits:
        fs.append(S.slen(c) == len(v))
        if len(v) <= 4:
            for i, ch in enumerate(v):
                fs.append(S.at(c, I(i)) == ch)
    for t in strs.values():
        if S.value(t) is None:
            fs.append(S.slen(t) >= 0)
            fs.append((S.slen(t) == 0) == (t == empty))
    if any(z3.is_app(t) and (t.decl().eq(S.runelen) or t.decl().eq(S.runerow)) for t in terms):
        for v, c in lits:
            try:
                rs = [ord(ch) for ch in v.decode('utf8')]
            except UnicodeDecodeError:
                continue
            fs.append(S.runelen(c) == len(rs))
            for i, ch in enumerate(rs[:12]):
                fs.append(z3.Select(S.runerow(c), I(i)) == ch)
    lts = []
    for t in terms:
        if not z3.is_app(t):
            continue
        d = t.decl()
        if d.eq(S.sub_):
            s, lo, hi = t.children()
            ok = z3.And(lo >= 0, lo <= hi, hi <= S.slen(s))
            fs.append(z3.Implies(ok, S.slen(t) == hi - lo))
            fs.append(z3.Implies(z3.And(lo == 0, hi == S.slen(s)), t == s))
        elif d.eq(S.cat_):
            fs.append(S.slen(t) == S.slen(t.arg(0)) + S.slen(t.arg(1)))
            fs.append(z3.Implies(t.arg(0) == empty, t == t.arg(1)))
            fs.append(z3.Implies(t.arg(1) == empty, t == t.arg(0)))
        elif d.eq(S.prefix_):
            s, p = t.children()
            fs.append(z3.Implies(t, S.slen(s) >= S.slen(p)))
            fs.append(z3.Implies(p == empty, t))
            pv = S.value(p)
            if pv is not None:
                if len(pv) <= 8:
                    fs.append(t == z3.And(S.slen(s) >= len(pv), *[S.at(s, I(i)) == c for i, c in enumerate(pv)]))
        elif d.eq(S.trimprefix_):
            s, p = t.children()
            fs.append(z3.Implies(S.prefix_(s, p), t == S.sub_(s, S.slen(p), S.slen(s))))
            fs.append(z3.Implies(z3.Not(S.prefix_(s, p)), t == s))
            fs.append(z3.Implies(S.prefix_(s, p), z3.And(S.slen(s) >= S.slen(p), S.slen(t) == S.slen(s) - S.slen(p))))
        elif d.eq(S.index_) or d.eq(S.lastindex_):
            s, p = t.children()
            fs.append(z3.And(t >= -1, z3.Implies(t >= 0, t + S.slen(p) <= S.slen(s))))
            pv = S.value(p)
            if pv is not None and len(pv) == 1:
                fs.append(z3.Implies(t >= 0, S.at(s, t) == pv[0]))
            o = S.lastindex_(s, p) if d.eq(S.index_) else S.index_(s, p)
            fs.append((t < 0) == (o < 0))
            fs.append(S.index_(s, p) <= S.lastindex_(s, p))
        elif d.eq(S.lt_):
            lts.append(t)
        elif d.eq(S.repeat_):
            s, n = t.children()
            if S.value(s) is not None:
                fs.append(z3.Implies(n >= 0, S.slen(t) == n * len(S.value(s))))
            fs.append(z3.Implies(n == 0, t == empty))
        elif d.eq(S.fromrune):
            fs.append(S.slen(t) >= 1)
            fs.append(z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < 128), S.slen(t) == 1))
        elif d.eq(S.runelen):
            s = t.arg(0)
            fs.append(z3.And(t >= 0, t <= S.slen(s), (t == 0) == (S.slen(s) == 0)))
    # strict total order
    if lts:
        xs = {}
        for t in lts:
            for a in t.children():
                xs[a.get_id()] = a
        xs = list(xs.values())
        if len(xs) <= 8:
            for a in xs:
                fs.append(z3.Not(S.lt_(a, a)))
                for b in xs:
                    if a.get_id() < b.get_id():
                        fs.append(z3.Or(S.lt_(a, b), S.lt_(b, a), a == b))
                        fs.append(z3.Not(z3.And(S.lt_(a, b), S.lt_(b, a))))
                    for c in xs:
                        fs.append(z3.Implies(z3.And(S.lt_(a, b), S.lt_(b, c)), S.lt_(a, c)))
    return fs
