"""Verification condition generator: symbolic execution of go/ssa functions
against contracts.  Joins are merged, loops are cut at their headers with
invariants (found among candidates, see solve.py), calls use the callee's
contract when it has one and are executed in place when it has not."""
import z3
from terms import *
from prog import Unsupported

NEST = 16


class V:  # python-level (non-z3) values
    pass


class Facts(list):
    """A list of formulas, each with the path condition it was recorded under (None: everywhere)."""

    def __init__(self):
        super().__init__()
        self.guards = []

    def append(self, f, guard=None):
        super().append(f)
        self.guards.append(guard)

    def __delitem__(self, i):
        super().__delitem__(i)
        del self.guards[i]


class Slice(V):
    __slots__ = ('arr', 'off', 'len', 'cap', 'elem')

    def __init__(self, arr, off, ln, cap, elem):
        self.arr, self.off, self.len, self.cap, self.elem = arr, off, ln, cap, elem

    def __repr__(self):
        return 'Slice(%s,%s,%s)' % (self.arr, self.off, self.len)


class StructV(V):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f


class TupleV(V):
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = vs


class Loc(V):
    """Pointer to a local object (struct or array) not (yet) in the heap, or a path in it."""
    __slots__ = ('id', 'path', 't')

    def __init__(self, id, path, t):
        self.id, self.path, self.t = id, path, t   # t: pointee type


class Cell(V):
    """Pointer to a variable of non-struct type."""
    __slots__ = ('id', 't')

    def __init__(self, id, t):
        self.id, self.t = id, t


class FieldLV(V):
    """Pointer to a non-struct field of a heap object."""
    __slots__ = ('ref', 'key', 't')

    def __init__(self, ref, key, t):
        self.ref, self.key, self.t = ref, key, t


class ElemLV(V):
    __slots__ = ('arr', 'idx', 't')

    def __init__(self, arr, idx, t):
        self.arr, self.idx, self.t = arr, idx, t


class GlobLV(V):
    __slots__ = ('name', 't')

    def __init__(self, name, t):
        self.name, self.t = name, t


class Clo(V):
    __slots__ = ('fn', 'binds')

    def __init__(self, fn, binds):
        self.fn, self.binds = fn, binds


class LitSlice(V):
    """Slice of a local array."""
    __slots__ = ('id', 'lo', 'hi', 'elem')

    def __init__(self, id, lo, hi, elem):
        self.id, self.lo, self.hi, self.elem = id, lo, hi, elem


class Iter(V):
    __slots__ = ('kind', 'm', 'mt', 'vis', 'eid')

    def __init__(self, kind, m, mt, eid):
        self.kind, self.m, self.mt, self.eid = kind, m, mt, eid


class LocalObj:
    __slots__ = ('t', 'val', 'ref')

    def __init__(self, t, val, ref=None):
        self.t, self.val, self.ref = t, val, ref


class State:
    __slots__ = ('env', 'comps', 'cells', 'locs', 'nxt', 'reach', 'defers', 'panic')

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.comps = dict(self.comps)
        s.cells = dict(self.cells)
        s.locs = dict(self.locs)
        s.nxt = self.nxt
        s.reach = self.reach
        s.defers = self.defers
        s.panic = self.panic
        return s


class Obl:
    __slots__ = ('nfacts', 'reach', 'goal', 'label', 'kind', 'cand', 'fn', 'line', 'tag')

    def __init__(self, nfacts, reach, goal, label, kind, cand, fn, line, tag):
        self.nfacts, self.reach, self.goal, self.label = nfacts, reach, goal, label
        self.kind, self.cand, self.fn, self.line, self.tag = kind, cand, fn, line, tag


class Cand:
    __slots__ = ('name', 'lit', 'loop', 'alive', 'f')

    def __init__(self, name, lit, loop, f=None):
        self.name, self.lit, self.loop, self.alive, self.f = name, lit, loop, True, f


class Frame:
    def __init__(self, fn, eng, depth, free):
        self.fn, self.eng, self.depth, self.free = fn, eng, depth, free
        self.rets, self.excs = [], []
        self.call_line = None


class Engine:
    def __init__(self, prog, contracts, tags):
        self.prog = prog
        self.C = contracts
        self.tags = set(tags)
        self.facts = Facts()
        self.reach_def = {}     # name of a path condition -> the path conditions it extends
        self._atoms = {}
        self.obls = []
        self.cands = []
        self.counter = 0
        self.type_ids = {}
        groups = {'leaf': [], 'cont': [], 'wrap': []}
        self.child_field = {}
        for t in prog.node_types:
            g = 'leaf'
            for f in prog.fields(t):
                if f['type'] == '[]parse.Node':
                    g = 'cont'
                    self.child_field[t] = f['name']
                elif f['type'] == 'parse.Node' and f['name'] != 'parent':
                    g = 'wrap'
                    self.child_field[t] = f['name']
            groups[g].append(t)
        self.groups = groups
        self.group_range = {}
        i = 0
        for g in ('leaf', 'cont', 'wrap'):
            self.group_range[g] = (i + 1, i + len(groups[g]))
            for t in groups[g]:
                i += 1
                self.type_ids['*' + t] = i
        self.n_node_types = len(prog.node_types)
        self.typeOf = fn('typeOf', Int, Int)
        self.init_comps = {}
        self.func_ids = {}
        self.func_names = {}
        self.glob_refs = {}
        self.typed_seen = set()
        self.seen_cuts = {}
        self.concats = []    # (row, lo_mid records) for append of slices
        self.entry = None
        self.used_contracts = set()
        self.inlined = set()
        self.externs = set()
        self.named_comps = {}
        self.opaque_fns = set()
        self.dead_fns = {}      # functions that must not be called at all
        self.assumed = set()
        self.cur_fn = None
        self.cur_line = 0
        self.stack = []
        self.nfresh_ext = 0
        self.call_marks = []   # recorded heap points (state copies) for spec frames
        self.specs = []        # spec theory objects contributing lemmas
        self.tables_used = set()

    # ------------------------------------------------------------ basics
    def fresh(self, name, sort):
        self.counter += 1
        return z3.Const('%s!%d' % (name, self.counter), sort)

    def fact(self, f, st=None):
        g = None
        if st is not None:
            f = Implies(st.reach, f)
            g = st.reach
        if not z3.is_true(f):
            self.facts.append(f, g)

    def con_of(self, name):
        """The contract of a function in this run (one that exists for one of the tags)."""
        c = self.C.get(name)
        while c is not None and not c.applies(self):
            c = c.alt
        return c

    def reach_atoms(self, r):
        """Names of path conditions in r."""
        a = self._atoms.get(r.get_id())
        if a is None:
            out, todo, seen = set(), [r], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.sort() == Bool and x.decl().name() in self.reach_def:
                    out.add(x.decl().name())
                else:
                    todo += x.children()
            a = self._atoms[r.get_id()] = (frozenset(out), r)
        return a[0]

    def ancestors(self, r):
        """Names of all path conditions that can hold on a path reaching r."""
        out, todo = set(), list(self.reach_atoms(r))
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += self.reach_def[x]
        return frozenset(out)

    def relevant(self, anc, lo, hi):
        """The facts of [lo, hi) recorded on paths that can lead here (the others cannot help)."""
        fs, gs = self.facts, self.facts.guards
        return [fs[i] for i in range(lo, hi) if gs[i] is None or self.reach_atoms(gs[i]) <= anc]

    def has(self, tag):
        return tag is None or (any(t in self.tags for t in tag.split('+')) if '+' in tag else tag in self.tags)

    def oblige(self, st, goal, label, tag=None, kind='assert', cand=None, assume=True):
        """Obligation that goal holds at st (if its tag is enabled); afterwards it is assumed."""
        if kind == 'assert' and not self.has(tag):
            if assume:
                self.fact(goal, st)
            return
        if not z3.is_true(goal):
            g = z3.simplify(goal)
            if not z3.is_true(g):
                self.obls.append(Obl(len(self.facts), st.reach, goal, label, kind, cand,
                                     self.cur_fn, self.cur_line, tag))
            elif kind == 'assert':
                self.obls.append(Obl(len(self.facts), st.reach, T, label, kind, cand,
                                     self.cur_fn, self.cur_line, tag))
        elif kind == 'assert':
            self.obls.append(Obl(len(self.facts), st.reach, T, label, kind, cand,
                                 self.cur_fn, self.cur_line, tag))
        if assume:
            self.fact(goal, st)

    def sort_of(self, t):
        k = self.prog.under(t)
        kd = k['kind']
        if kd == 'basic':
            n = k['name']
            if n == 'bool' or n == 'untyped bool':
                return Bool
            if 'string' in n:
                return Str
            if 'float' in n:
                return z3.RealSort()
            return Int
        if kd in ('ptr', 'map', 'chan', 'iface', 'func'):
            return Int
        raise Unsupported('sort of ' + t)

    def type_id(self, t):
        if t not in self.type_ids:
            self.type_ids[t] = 100 + len(self.type_ids)
        return self.type_ids[t]

    def is_node(self, ref):
        ty = self.typeOf(ref)
        return z3.And(ty >= 1, ty <= self.n_node_types)

    def in_group(self, ref, g):
        lo, hi = self.group_range[g]
        ty = self.typeOf(ref)
        return z3.And(ty >= lo, ty <= hi)

    def is_type(self, ref, short):
        return self.typeOf(ref) == self.type_id('*' + short)

    # component keys ----------------------------------------------------
    # ('F', field, type, part)  field of objects;  ('E', elemtype, part) elements of arrays
    # ('MD', maptype) domain; ('MV', maptype, part) values; ('G', name, part) globals
    # ('BOX', type, part); ('gh', name) ghost
    def parts(self, t):
        if self.prog.kind(t) == 'slice':
            return ('arr', 'off', 'len', 'cap')
        return ('',)

    def part_sort(self, t, part):
        return Int if part else self.sort_of(t)

    def key_sort(self, key):
        k = key[0]
        if k == 'F':
            return z3.ArraySort(Int, self.part_sort(key[2], key[3]))
        if k == 'E':
            return z3.ArraySort(Int, z3.ArraySort(Int, self.part_sort(key[1], key[2])))
        if k == 'MD':
            return z3.ArraySort(Int, z3.ArraySort(self.sort_of(self.prog.under(key[1])['key']), Bool))
        if k == 'MV':
            m = self.prog.under(key[1])
            return z3.ArraySort(Int, z3.ArraySort(self.sort_of(m['key']), self.part_sort(m['elem'], key[2])))
        if k == 'G':
            if key[1] not in self.prog.globals:
                return Int      # an error value of a library
            return self.part_sort(self.prog.globals[key[1]], key[2]) if not self.prog.globals[key[1]].startswith('*') else self.part_sort(self.prog.elem(self.prog.globals[key[1]]), key[2])
        if k == 'BOX':
            return z3.ArraySort(Int, self.part_sort(key[1], key[2]))
        if k == 'gh':
            return self.C.ghosts[key[1]]
        raise Unsupported('key %r' % (key,))

    def comp(self, st, key):
        v = st.comps.get(key)
        if v is None:
            v = self.init_comps.get(key)
            if v is None:
                nm = '.'.join(str(x) for x in key)
                v = z3.Const('H0_' + nm, self.key_sort(key))
                self.init_comps[key] = v
        return v

    def gh(self, st, name):
        return self.comp(st, ('gh', name))

    def set_gh(self, st, name, val):
        st.comps[('gh', name)] = val

    # typed facts ---------------------------------------------------------
    def nested_types(self):
        r = getattr(self, '_nested', None)
        if r is None:
            r = set()
            for t, d in self.prog.types.items():
                if d['kind'] == 'struct':
                    for f in d['fields']:
                        if self.prog.types[f['type']]['kind'] == 'named' and self.prog.is_struct(f['type']):
                            r.add(f['type'])
            self._nested = r
        return r

    def typed(self, st, v, t):
        """Facts guaranteed by Go's type and memory safety for a value of type t."""
        p = self.prog
        if isinstance(v, Slice):
            key = (v.arr.get_id(), v.off.get_id(), v.len.get_id(), v.cap.get_id())
            if key in self.typed_seen:
                return v
            self.typed_seen.add(key)
            self.fact(And(v.arr >= 0, v.arr < st.nxt, v.off >= 0, v.len >= 0, v.len <= v.cap,
                          z3.Implies(v.arr == 0, v.cap == 0)), st)
            return v
        if isinstance(v, StructV):
            for f in p.fields(t):
                self.typed(st, v.f[f['name']], f['type'])
            return v
        if not isinstance(v, z3.ExprRef):
            return v
        k = p.under(t)
        kd = k['kind']
        key = (v.get_id(), t)
        if key in self.typed_seen:
            return v
        self.typed_seen.add(key)
        self._keep = getattr(self, '_keep', [])
        self._keep.append(v)
        if kd == 'ptr':
            el = k['elem']
            if p.kind(el) == 'struct':
                if el in self.nested_types():
                    self.fact(And(v > -NEST * st.nxt, v < st.nxt), st)
                else:
                    self.fact(And(v >= 0, v < st.nxt,
                                  z3.Implies(v != 0, self.typeOf(v) == self.type_id(t))), st)
        elif kd == 'iface':
            nm = t
            self.fact(And(v >= 0, v < st.nxt, (v == 0) == (self.typeOf(v) == 0)), st)
            if self.is_node_iface(t):
                self.fact(z3.Implies(v != 0, self.is_node(v)), st)
        elif kd in ('map', 'chan'):
            self.fact(And(v >= 0, v < st.nxt), st)
        elif kd == 'basic':
            n = k['name']
            if n in ('uint8', 'byte'):
                self.fact(And(v >= 0, v <= 255))
            elif n.startswith('uint'):
                self.fact(v >= 0)
        return v

    def is_node_iface(self, t):
        return t == 'parse.Node'

    # zero / fresh values ---------------------------------------------------
    def zero(self, t):
        p = self.prog
        k = p.under(t)
        kd = k['kind']
        if kd == 'basic':
            s = self.sort_of(t)
            if s == Bool:
                return F
            if s == Str:
                return S.lit('')
            if s == z3.RealSort():
                return z3.RealVal(0)
            return I(0)
        if kd in ('ptr', 'map', 'chan', 'iface', 'func'):
            return I(0)
        if kd == 'slice':
            return Slice(I(0), I(0), I(0), I(0), k['elem'])
        if kd == 'struct':
            return StructV(t, {f['name']: self.zero(f['type']) for f in k['fields']})
        if kd == 'array':
            return [self.zero(k['elem']) for _ in range(k['len'])] if k['len'] <= 4096 else None
        raise Unsupported('zero of ' + t)

    def fresh_val(self, st, t, name='v'):
        p = self.prog
        k = p.under(t)
        kd = k['kind']
        if kd == 'slice':
            v = Slice(self.fresh(name + '.arr', Int), self.fresh(name + '.off', Int),
                      self.fresh(name + '.len', Int), self.fresh(name + '.cap', Int), k['elem'])
        elif kd == 'struct':
            v = StructV(t, {f['name']: self.fresh_val(st, f['type'], name + '.' + f['name']) for f in k['fields']})
        elif kd == 'tuple':
            return TupleV([self.fresh_val(st, e, name) for e in k['elems']])
        else:
            v = self.fresh(name, self.sort_of(t))
        return self.typed(st, v, t)

    # memory ---------------------------------------------------------------
    def fkeys(self, fname, ft):
        return [('F', fname, ft, part) for part in self.parts(ft)]

    def load_key(self, st, base, t, ref):
        """base: key without part; returns value of type t at ref."""
        if self.prog.kind(t) == 'slice':
            vs = [z3.Select(self.comp(st, base + (pt,)), ref) for pt in ('arr', 'off', 'len', 'cap')]
            return self.typed(st, Slice(*vs, self.prog.elem(t)), t)
        return self.typed(st, z3.Select(self.comp(st, base + ('',)), ref), t)

    def store_key(self, st, base, t, ref, v):
        v = self.esc(st, v)
        if self.prog.kind(t) == 'slice':
            for pt, x in zip(('arr', 'off', 'len', 'cap'), (v.arr, v.off, v.len, v.cap)):
                k = base + (pt,)
                st.comps[k] = z3.Store(self.comp(st, k), ref, x)
        else:
            k = base + ('',)
            st.comps[k] = z3.Store(self.comp(st, k), ref, self.scalar(v))
        h = self.C.store_hooks.get(base[:2])
        if h:
            h(self, st, base, t, ref, v)

    def scalar(self, v):
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Clo):
            return I(self.clo_id(v))
        raise Unsupported('storing %s in the heap' % type(v).__name__)

    def clo_id(self, c):
        self._clos = getattr(self, '_clos', {})
        for i, d in self._clos.items():
            if d is c:
                return i
        i = 1000000 + len(self._clos)
        self._clos[i] = c
        return i

    def fname_id(self, n):
        if n not in self.func_ids:
            self.func_ids[n] = 2000000 + len(self.func_ids)
            self.func_names[self.func_ids[n]] = n
        return self.func_ids[n]

    def nested_ref(self, st, ref, idx):
        v = ival(ref)
        return z3.simplify(-(NEST * ref + idx)) if not z3.is_array(ref) else None

    def field(self, st, ref, stype, fname):
        """Value of field fname of the struct of type stype at ref."""
        for i, f in enumerate(self.prog.fields(stype)):
            if f['name'] == fname:
                if self.prog.is_struct(f['type']):
                    return self.load_struct(st, self.nested_ref(st, ref, i), f['type'])
                return self.load_key(st, ('F', fname, f['type']), f['type'], ref)
        raise Unsupported('no field %s in %s' % (fname, stype))

    def nested(self, st, ref, stype, fname):
        for i, f in enumerate(self.prog.fields(stype)):
            if f['name'] == fname:
                return self.nested_ref(st, ref, i)
        raise Unsupported('no field %s in %s' % (fname, stype))

    def set_field(self, st, ref, stype, fname, v):
        for i, f in enumerate(self.prog.fields(stype)):
            if f['name'] == fname:
                if self.prog.is_struct(f['type']):
                    return self.store_struct(st, self.nested_ref(st, ref, i), f['type'], v)
                return self.store_key(st, ('F', fname, f['type']), f['type'], ref, v)
        raise Unsupported('no field %s in %s' % (fname, stype))

    def load_struct(self, st, ref, t):
        return StructV(t, {f['name']: self.field(st, ref, t, f['name']) for f in self.prog.fields(t)})

    def store_struct(self, st, ref, t, v):
        for f in self.prog.fields(t):
            self.set_field(st, ref, t, f['name'], v.f[f['name']])

    def alloc_ref(self, st):
        r = st.nxt
        st.nxt = z3.simplify(st.nxt + 1)
        return r

    def materialize(self, st, lid):
        lo = st.locs[lid]
        if lo.ref is not None:
            return lo.ref
        r = self.alloc_ref(st)
        t = lo.t
        st.locs[lid] = LocalObj(t, None, r)
        if self.prog.kind(t) == 'array':
            el = self.prog.elem(t)
            if self.prog.is_struct(el):
                raise Unsupported('array of structs')
            for part in self.parts(el):
                key = ('E', el, part)
                row = self.fresh('row', self.key_sort(key).range())
                for i, x in enumerate(lo.val):
                    x = self.esc(st, x)
                    xv = getattr(x, part) if part else self.scalar(x)
                    row = z3.Store(row, I(i), xv)
                st.comps[key] = z3.Store(self.comp(st, key), r, row)
            hk = self.C.alloc_array_hook
            if hk:
                hk(self, st, el, r, len(lo.val))
        else:
            self.fact(self.typeOf(r) == self.type_id('*' + t), st)
            self.store_struct(st, r, t, lo.val)
        return r

    def esc(self, st, v):
        """Value in a form that may be stored, passed or compared."""
        if isinstance(v, Loc):
            r = self.materialize(st, v.id)
            t = st.locs[v.id].t
            if self.prog.kind(t) == 'array' and len(v.path) == 1:
                return ElemLV(r, I(v.path[0]), self.prog.elem(t))
            for p in v.path:
                r = self.nested(st, r, t, p)
                t = [f['type'] for f in self.prog.fields(t) if f['name'] == p][0]
            return r
        if isinstance(v, LitSlice):
            n = len(st.locs[v.id].val) if st.locs[v.id].val is not None else v.hi
            r = self.materialize(st, v.id)
            return Slice(r, I(v.lo), I(v.hi - v.lo), I(v.hi - v.lo), v.elem)
        if isinstance(v, StructV):
            return StructV(v.t, {k: self.esc(st, x) for k, x in v.f.items()})
        return v

    def load(self, st, lv, t):
        if isinstance(lv, Loc):
            lo = st.locs[lv.id]
            if lo.ref is None:
                v = lo.val
                for p in lv.path:
                    v = v.f[p] if isinstance(v, StructV) else v[p]
                return v
            r, bt = lo.ref, lo.t
            if self.prog.kind(bt) == 'array':
                return self.load_key_row(st, r, I(lv.path[0]), t)
            return self.load_path(st, r, bt, lv.path)
        if isinstance(lv, Cell):
            return st.cells[lv.id]
        if isinstance(lv, FieldLV):
            return self.load_key(st, lv.key, lv.t, lv.ref)
        if isinstance(lv, ElemLV):
            if self.C.seq_hook:
                self.C.seq_hook(self, st, 'load', lv.t, lv.arr, lv.idx, None)
            return self.load_key_row(st, lv.arr, lv.idx, lv.t)
        if isinstance(lv, GlobLV):
            return self.load_global(st, lv)
        if isinstance(lv, z3.ExprRef) and self.prog.is_struct(t):
            return self.load_struct(st, lv, t)
        raise Unsupported('load through %s' % type(lv).__name__)

    def load_path(self, st, r, t, path):
        for p in path[:-1]:
            r = self.nested(st, r, t, p)
            t = [f['type'] for f in self.prog.fields(t) if f['name'] == p][0]
        if not path:
            return self.load_struct(st, r, t)
        return self.field(st, r, t, path[-1])

    def row(self, st, elem, arr, part=''):
        return z3.Select(self.comp(st, ('E', elem, part)), arr)

    def load_key_row(self, st, arr, idx, t):
        if self.prog.is_struct(t):
            raise Unsupported('element of struct type')
        if self.prog.kind(t) == 'slice':
            vs = [z3.Select(self.row(st, t, arr, pt), idx) for pt in ('arr', 'off', 'len', 'cap')]
            return self.typed(st, Slice(*vs, self.prog.elem(t)), t)
        return self.typed(st, z3.Select(self.row(st, t, arr), idx), t)

    def load_global(self, st, lv):
        v = self.global_value(st, lv.name, lv.t)
        return v

    def global_value(self, st, g, t):
        p = self.prog
        if p.kind(t) == 'slice':
            return self.typed(st, Slice(*[self.comp(st, ('G', g, pt)) for pt in ('arr', 'off', 'len', 'cap')], p.elem(t)), t)
        if p.kind(t) in ('struct', 'array'):
            raise Unsupported('load of global aggregate ' + g)
        c = p.gconst.get(g)
        if c and c[0] in ('alloc', 'map'):
            r = self.glob_ref(g)
            if c[0] == 'alloc':
                self.fact(self.typeOf(r) == self.type_id('*' + c[1]))
            return r
        if c and c[0] == 'const' and c[1] is not None:
            return self.const({'k': 'c', 'v': c[1], 't': t})
        v = self.comp(st, ('G', g, ''))
        if p.under(t)['kind'] == 'iface' and g.split('.')[0] in ('io', 'os'):
            self.fact(v != 0)
        return self.typed(st, v, t)

    def glob_ref(self, g):
        if g not in self.glob_refs:
            self.glob_refs[g] = 10 + len(self.glob_refs)
        return I(self.glob_refs[g])

    def store(self, st, lv, v, t):
        if isinstance(lv, Loc):
            lo = st.locs[lv.id]
            if lo.ref is None:
                st.locs[lv.id] = LocalObj(lo.t, self.upd(lo.val, lv.path, v))
                return
            r, bt = lo.ref, lo.t
            if self.prog.kind(bt) == 'array':
                return self.store_row(st, r, I(lv.path[0]), t, v)
            for p in lv.path[:-1]:
                r = self.nested(st, r, bt, p)
                bt = [f['type'] for f in self.prog.fields(bt) if f['name'] == p][0]
            if not lv.path:
                return self.store_struct(st, r, bt, v)
            return self.set_field(st, r, bt, lv.path[-1], v)
        if isinstance(lv, Cell):
            if isinstance(v, (Loc, LitSlice)):
                v = self.esc(st, v)
            st.cells[lv.id] = v
            return
        if isinstance(lv, FieldLV):
            return self.store_key(st, lv.key, lv.t, lv.ref, v)
        if isinstance(lv, ElemLV):
            old = st.comps.get(('E', lv.t, '')) if self.C.seq_hook else None
            r = self.store_row(st, lv.arr, lv.idx, lv.t, v)
            if old is not None:
                self.C.seq_hook(self, st, 'store', lv.t, lv.arr, lv.idx, old)
            return r
        if isinstance(lv, GlobLV):
            v = self.esc(st, v)
            for pt in self.parts(lv.t):
                st.comps[('G', lv.name, pt)] = getattr(v, pt) if pt else self.scalar(v)
            return
        if isinstance(lv, z3.ExprRef) and self.prog.is_struct(t):
            return self.store_struct(st, lv, t, v)
        raise Unsupported('store through %s' % type(lv).__name__)

    def upd(self, val, path, v):
        if not path:
            return v
        if isinstance(val, StructV):
            f = dict(val.f)
            f[path[0]] = self.upd(f[path[0]], path[1:], v)
            return StructV(val.t, f)
        l = list(val)
        l[path[0]] = self.upd(l[path[0]], path[1:], v)
        return l

    def store_row(self, st, arr, idx, t, v):
        v = self.esc(st, v)
        for pt in self.parts(t):
            key = ('E', t, pt)
            H = self.comp(st, key)
            x = getattr(v, pt) if pt else self.scalar(v)
            st.comps[key] = z3.Store(H, arr, z3.Store(z3.Select(H, arr), idx, x))
        h = self.C.elem_store_hook
        if h:
            h(self, st, t, arr, idx, v)

    # ------------------------------------------------------------ merging
    def merge_vals(self, pairs, st, states):
        """pairs: list of (reach, value); result value (may need materialisation in states)."""
        v0 = pairs[0][1]
        if all(self.same(v0, v) for _, v in pairs[1:]):
            return v0
        vs = [v for _, v in pairs]
        if any(isinstance(v, (Loc, LitSlice)) for v in vs):
            vs = [self.esc(s, v) if isinstance(v, (Loc, LitSlice)) else v for s, v in zip(states, vs)]
            return self.merge_vals([(r, v) for (r, _), v in zip(pairs, vs)], st, states)
        if any(isinstance(v, Clo) for v in vs):
            vs = [I(self.clo_id(v)) if isinstance(v, Clo) else v for v in vs]
            return self.merge_vals([(r, v) for (r, _), v in zip(pairs, vs)], st, states)
        if isinstance(v0, Slice):
            def m(a):
                return self.merge_vals([(r, getattr(v, a)) for (r, _), v in zip(pairs, vs)], st, states)
            return Slice(m('arr'), m('off'), m('len'), m('cap'), v0.elem)
        if isinstance(v0, StructV):
            return StructV(v0.t, {k: self.merge_vals([(r, v.f[k]) for (r, _), v in zip(pairs, vs)], st, states) for k in v0.f})
        if isinstance(v0, TupleV):
            return TupleV([self.merge_vals([(r, v.vs[i]) for (r, _), v in zip(pairs, vs)], st, states) for i in range(len(v0.vs))])
        if isinstance(v0, list):
            return [self.merge_vals([(r, v[i]) for (r, _), v in zip(pairs, vs)], st, states) for i in range(len(v0))]
        if isinstance(v0, FieldLV) and all(isinstance(v, FieldLV) and v.key == v0.key for v in vs):
            return FieldLV(self.merge_vals([(r, v.ref) for (r, _), v in zip(pairs, vs)], st, states), v0.key, v0.t)
        if isinstance(v0, ElemLV) and all(isinstance(v, ElemLV) and v.t == v0.t for v in vs):
            return ElemLV(*[self.merge_vals([(r, getattr(v, a)) for (r, _), v in zip(pairs, vs)], st, states) for a in ('arr', 'idx')], v0.t)
        if isinstance(v0, z3.ExprRef) and all(isinstance(v, z3.ExprRef) for v in vs):
            if z3.is_array(v0):
                c = self.fresh('m', v0.sort())
                for r, v in pairs:
                    self.fact(Implies(r, c == v))
                return c
            t = vs[-1]
            for (r, _), v in list(zip(pairs, vs))[-2::-1]:
                t = Ite(r, v, t)
            return t
        return None

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if type(a) is not type(b):
            return False
        if isinstance(a, Slice):
            return all(self.same(getattr(a, x), getattr(b, x)) for x in ('arr', 'off', 'len', 'cap'))
        if isinstance(a, StructV):
            return all(self.same(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, TupleV):
            return all(self.same(x, y) for x, y in zip(a.vs, b.vs))
        if isinstance(a, Loc):
            return a.id == b.id and a.path == b.path
        if isinstance(a, LitSlice):
            return (a.id, a.lo, a.hi) == (b.id, b.lo, b.hi)
        if isinstance(a, Cell):
            return a.id == b.id
        if isinstance(a, FieldLV):
            return a.key == b.key and a.ref.eq(b.ref)
        if isinstance(a, GlobLV):
            return a.name == b.name
        if isinstance(a, Iter):
            return a.eid == b.eid
        if isinstance(a, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Clo):
            return a.fn == b.fn and len(a.binds) == len(b.binds) and all(self.same(x, y) for x, y in zip(a.binds, b.binds))
        return False

    def named_reach(self, r):
        if z3.is_true(r) or z3.is_false(r) or z3.is_const(r):
            return r
        b = self.fresh('B', Bool)
        self.facts.append(b == r)
        self.reach_def[b.decl().name()] = self.reach_atoms(r)
        return b

    def merge_states(self, states):
        states = [s for s in states if not z3.is_false(s.reach)]
        if not states:
            return None
        if len(states) == 1:
            return states[0].copy()
        # locals first: materialised in one -> in all
        for s in states:
            for lid in list(s.locs):
                if s.locs[lid].ref is not None:
                    for s2 in states:
                        if lid in s2.locs and s2.locs[lid].ref is None:
                            self.materialize(s2, lid)
        out = State()
        rs = [s.reach for s in states]
        out.reach = self.named_reach(Or(*rs))
        # values that need materialisation
        out.env, out.comps, out.cells, out.locs = {}, {}, {}, {}
        out.defers = states[0].defers
        if any(s.defers is not out.defers for s in states):
            if all(len(s.defers) == len(out.defers) and all(x is y for x, y in zip(s.defers, out.defers)) for s in states):
                pass
            else:
                # the calls deferred on some paths only run if one of those was taken
                n = 0
                while all(len(s.defers) > n and s.defers[n] is states[0].defers[n] for s in states):
                    n += 1
                ds = list(states[0].defers[:n])
                for s in states:
                    ds += [d[:4] + (And(d[4], s.reach),) for d in s.defers[n:]]
                out.defers = tuple(ds)
        pan = [s.panic for s in states]
        if all(x is pan[0] for x in pan):
            out.panic = pan[0]
        else:
            # a pair (panicking Bool, value)
            ps = [x if x is not None else (F, I(0)) for x in pan]
            out.panic = (self.merge_vals([(r, p[0]) for r, p in zip(rs, ps)], out, states),
                         self.merge_vals([(r, p[1]) for r, p in zip(rs, ps)], out, states))
        envkeys = set(states[0].env)
        for s in states[1:]:
            envkeys &= set(s.env)
        for k in envkeys:
            vals = [s.env[k] for s in states]
            if all(self.same(vals[0], v) for v in vals[1:]):
                out.env[k] = vals[0]
            else:
                m = self.merge_vals(list(zip(rs, vals)), out, states)
                if m is not None:
                    out.env[k] = m
        for lid in states[0].locs:
            if not all(lid in s.locs for s in states):
                continue
            los = [s.locs[lid] for s in states]
            if los[0].ref is not None:
                out.locs[lid] = LocalObj(los[0].t, None, self.merge_vals([(r, l.ref) for r, l in zip(rs, los)], out, states))
            else:
                v = self.merge_vals([(r, l.val) for r, l in zip(rs, los)], out, states)
                if v is None:
                    raise Unsupported('merging local object')
                out.locs[lid] = LocalObj(los[0].t, v)
        for cid in states[0].cells:
            if not all(cid in s.cells for s in states):
                continue
            v = self.merge_vals([(r, s.cells[cid]) for r, s in zip(rs, states)], out, states)
            if v is None:
                raise Unsupported('merging variable')
            out.cells[cid] = v
        keys = set()
        for s in states:
            keys |= set(s.comps)
        for k in sorted(keys, key=str):
            vs = [self.comp(s, k) for s in states]
            if all(v.eq(vs[0]) for v in vs[1:]):
                out.comps[k] = vs[0]
            else:
                out.comps[k] = self.merge_vals(list(zip(rs, vs)), out, states)
        nx = [s.nxt for s in states]
        if all(x.eq(nx[0]) for x in nx[1:]):
            out.nxt = nx[0]
        else:
            c = self.fresh('nxt', Int)
            for r, x in zip(rs, nx):
                self.fact(Implies(r, c == x))
            out.nxt = c
        return out

    # ------------------------------------------------------------ values
    def const(self, c):
        t = c['t']
        v = c['v']
        if v is None:
            return self.zero(t)
        s = self.sort_of(t)
        if s == Str:
            return S.lit(v)
        if s == Bool:
            return z3.BoolVal(v)
        if s == z3.RealSort():
            return z3.RealVal(v)
        return I(int(v))

    def val(self, fr, st, v):
        k = v['k']
        if k == 'c':
            return self.const(v)
        if k == 'r':
            try:
                return st.env[(fr.depth, v['n'])]
            except KeyError:
                raise Unsupported('undefined register %s in %s' % (v['n'], fr.fn.name))
        if k == 'f':
            return I(self.fname_id(v['n']))
        if k == 'g':
            t = v['t']
            el = self.prog.elem(t)
            if self.prog.kind(el) in ('struct', 'array'):
                r = self.glob_ref(v['n'])
                return r
            return GlobLV(v['n'], el)
        raise Unsupported('value kind ' + k)

    # ------------------------------------------------------------ regions
    def run_region(self, fr, blocks, entry, ins, header=None):
        f = fr.fn
        incoming = {}
        if ins is not None:
            incoming[entry] = list(ins)
        out, back = [], []

        def dispatch(t, s, p):
            if z3.is_false(s.reach):
                return
            if header is not None and t == header:
                back.append((s, p))
            elif t in blocks:
                incoming.setdefault(t, []).append((s, p))
            else:
                out.append((t, s, p))
        for b in f.rpo:
            if b not in blocks or b not in incoming:
                continue
            if b in f.loops and not (header is not None and b == header):
                for (t, s, p) in self.run_loop(fr, b, incoming.pop(b)):
                    dispatch(t, s, p)
                continue
            st = self.join(fr, b, incoming.pop(b))
            if st is None:
                continue
            for (t, s) in self.exec_block(fr, b, st):
                dispatch(t, s, b)
        return out, back

    def phis(self, f, b):
        return [i for i in f.blocks[b]['ins'] if i['op'] == 'Phi']

    def join(self, fr, b, ins):
        """Merge incoming (state, pred) pairs at block b, evaluating its phis."""
        f = fr.fn
        ph = self.phis(f, b)
        preds = f.blocks[b]['preds']
        sts = []
        for s, p in ins:
            if z3.is_false(s.reach):
                continue
            if ph and p is not None:
                s = s.copy()
                vals = [self.val(fr, s, i['args'][preds.index(p)]) for i in ph]
                for i, v in zip(ph, vals):
                    s.env[(fr.depth, i['n'])] = v
            sts.append(s)
        st = self.merge_states(sts)
        if st is not None:
            for i in ph:
                if (fr.depth, i['n']) not in st.env:
                    raise Unsupported('phi of incompatible values')
        return st

    def run_loop(self, fr, h, ins):
        f = fr.fn
        body = f.loops[h]
        # 1. concrete unrolling when the exit condition is decided by constants
        snap = (len(self.facts), len(self.obls), self.counter, len(fr.rets), len(fr.excs), len(self.cands))
        seen0, tables0 = set(self.typed_seen), set(self.tables_used)
        res = self.try_unroll(fr, h, body, ins)
        if res is not None:
            return res
        del self.facts[snap[0]:]
        del self.obls[snap[1]:]
        del fr.rets[snap[3]:]
        del fr.excs[snap[4]:]
        del self.cands[snap[5]:]
        self.typed_seen, self.tables_used = seen0, tables0
        # 2. invariants
        mark = (len(self.facts), self.counter, len(fr.rets))
        pre_states = [(s.copy(), p) for s, p in ins]
        for s, p in pre_states:
            self.escape_for_loop(fr, s, body)
        pre = self.join(fr, h, pre_states)
        if pre is None:
            return []
        self.escape_for_loop(fr, pre, body)
        head = pre.copy()
        head.reach = self.fresh('L', Bool)
        self.facts.append(z3.Implies(head.reach, pre.reach))
        self.reach_def[head.reach.decl().name()] = self.reach_atoms(pre.reach)
        ph = self.phis(f, h)
        for i in ph:
            k = (fr.depth, i['n'])
            head.env[k] = self.havoc_val(head, pre.env[k], i['t'], i['comment'] or i['n'])
        mods, cells, locs = self.loop_mods(fr, pre, body)
        for k in sorted(mods, key=str):
            head.comps[k] = self.fresh('h_' + str(k[1]), self.key_sort(k))
        head.nxt = self.fresh('nxt', Int)
        self.fact(head.nxt >= pre.nxt)
        for c in cells:
            t = self.cell_types[c]
            head.cells[c] = self.havoc_val(head, pre.cells[c], t, 'cell')
        for l in locs:
            lo = head.locs[l]
            if lo.ref is None:
                if self.prog.kind(lo.t) == 'array':
                    el = self.prog.elem(lo.t)
                    head.locs[l] = LocalObj(lo.t, [self.fresh_val(head, el) for _ in lo.val])
                else:
                    head.locs[l] = LocalObj(lo.t, self.fresh_val(head, lo.t, 'loc'))
        for i in ph:
            self.typed(head, head.env[(fr.depth, i['n'])], i['t'])
        # iterators over maps in the body keep a visited set
        for k, v in list(head.env.items()):
            if isinstance(v, Iter) and k[0] == fr.depth and f.defblock.get(k[1]) not in body and self.iter_used(f, k[1], body):
                ck = ('it', v.eid)
                head.cells[ck] = self.fresh('visited', pre.cells[ck].sort())
        lv = LoopView(self, fr, h, body, pre, head, ph, mods, cells)
        cands = self.C.loop_candidates(lv)
        mine = []
        for name, g in cands:
            try:
                e0 = g(lv.at('entry', pre))
                if e0 is None:
                    continue
                e1 = g(lv.at('head', head))
            except SkipCand:
                continue
            lit = z3.Const('inv!%d' % len(self.cands), Bool)
            c = Cand(name, lit, '%s@%d' % (f.name, h), g)
            if z3.is_true(z3.simplify(e1)):
                continue
            self.cands.append(c)
            mine.append(c)
            self.oblige(pre, e0, 'entry: ' + name, kind='inv', cand=c, assume=False)
            self.facts.append(z3.Implies(z3.And(lit, head.reach), e1), head.reach)
        out, back = self.run_region(fr, body, h, [(head, None)], header=h)
        for s, p in back:
            s = s.copy()
            preds = f.blocks[h]['preds']
            vals = [self.val(fr, s, i['args'][preds.index(p)]) for i in ph]
            for i, v in zip(ph, vals):
                s.env[(fr.depth, i['n'])] = self.esc(s, v)
            view = lv.at('latch', s)
            for c in mine:
                try:
                    e = c.f(view)
                except SkipCand:
                    e = F
                self.oblige(s, e, 'step: ' + c.name, kind='inv', cand=c, assume=False)
        if self.C.loop_done is not None:
            self.C.loop_done(lv, mark, out, fr.rets[mark[2]:])
        return out

    def iter_used(self, f, reg, body):
        for b in body:
            for i in f.blocks[b]['ins']:
                if i['op'] == 'Next' and i['x'].get('n') == reg:
                    return True
        return False

    def havoc_val(self, st, v, t, name):
        if isinstance(v, Clo) or isinstance(v, (Loc, LitSlice)):
            v = self.esc(st, v)
        if isinstance(v, Slice):
            return Slice(self.fresh(name + '.arr', Int), self.fresh(name + '.off', Int),
                         self.fresh(name + '.len', Int), self.fresh(name + '.cap', Int), v.elem)
        if isinstance(v, StructV):
            return self.fresh_val(st, v.t, name)
        if isinstance(v, (Cell, FieldLV, ElemLV, GlobLV)):
            raise Unsupported('loop-carried pointer')
        return self.fresh(name, self.sort_of(t))

    def escape_for_loop(self, fr, st, body):
        """Local objects that escape inside the loop go to the heap before it."""
        f = fr.fn
        for ph in [i for b in body for i in self.phis(f, b)]:
            for a in ph['args']:
                if a['k'] == 'r':
                    v = st.env.get((fr.depth, a['n']))
                    if isinstance(v, (Loc, LitSlice)):
                        st.env[(fr.depth, a['n'])] = self.esc(st, v)
        used = set()
        for b in body:
            for ins in f.blocks[b]['ins']:
                for a in self.operands(ins):
                    if a['k'] == 'r':
                        used.add(a['n'])
        for n in used:
            if f.defblock.get(n) in body:
                continue
            v = st.env.get((fr.depth, n))
            if isinstance(v, (Loc, LitSlice)) and st.locs[v.id].ref is None:
                if self.escapes_in(f, n, body):
                    self.esc(st, v)

    def operands(self, ins):
        r = []
        for k in ('x', 'y', 'z', 'fn', 'lo', 'hi', 'max'):
            v = ins.get(k)
            if isinstance(v, dict) and 'k' in v:
                r.append(v)
        r += [a for a in ins.get('args', []) if a]
        return r

    def escapes_in(self, f, n, body):
        for b in body:
            for ins in f.blocks[b]['ins']:
                ops = [a for a in self.operands(ins) if a['k'] == 'r' and a['n'] == n]
                if not ops:
                    continue
                op = ins['op']
                if op == 'UnOp' and ins['o'] == '*':
                    continue
                if op == 'Store' and ins['x'].get('n') == n and not (ins['y']['k'] == 'r' and ins['y']['n'] == n):
                    continue
                if op in ('FieldAddr',) or (op == 'IndexAddr' and ins['y']['k'] == 'c'):
                    if not self.escapes_in(f, ins['n'], set(range(len(f.blocks)))):
                        continue
                return True
        return False

    def try_unroll(self, fr, h, body, ins, limit=40):
        f = fr.fn
        cur = [(s.copy(), p) for s, p in ins]
        outs = []
        term = f.blocks[h]['ins'][-1]
        if term['op'] != 'If':
            return None
        first = True
        for k in range(limit):
            self._hdr_const = None
            self._hdr_watch = (fr, h)
            try:
                if first:
                    # cheap test of the exit condition
                    s = self.join(fr, h, [(x.copy(), p) for x, p in cur])
                    if s is None:
                        return []
                    c = self.peek_cond(fr, h, s)
                    if c is None:
                        return None
                    first = False
                else:
                    s = self.join(fr, h, [(x.copy(), p) for x, p in cur])
                    c = self.peek_cond(fr, h, s)
                    if c is None:
                        return None
                out, back = self.run_region(fr, body, h, cur, header=h)
            finally:
                self._hdr_watch = None
            outs.extend(out)
            if not back:
                return outs
            cur = back
        return None

    def peek_cond(self, fr, h, st):
        """Constant value of the loop condition at header h in state st, or None."""
        f = fr.fn
        inss = f.blocks[h]['ins']
        for i in inss:
            if i['op'] not in ('Phi', 'BinOp', 'If', 'UnOp', 'Call', 'Extract'):
                return None
            if i['op'] == 'Call' and not (i['fn']['k'] == 'b' and i['fn']['n'] == 'len'):
                return None
        s = st.copy()
        n0 = (len(self.facts), len(self.obls))
        c = None
        try:
            for i in inss:
                if i['op'] == 'If':
                    c = z3.simplify(self.val(fr, s, i['x']))
                elif i['op'] != 'Phi':
                    self.exec_instr(fr, s, i)
        finally:
            del self.facts[n0[0]:]
            del self.obls[n0[1]:]
        if c is not None and (z3.is_true(c) or z3.is_false(c)):
            return c
        return None

    def loop_mods(self, fr, st, body):
        f = fr.fn
        mods, cells, locs = set(), set(), set()
        dyn = False
        for b in body:
            for ins in f.blocks[b]['ins']:
                op = ins['op']
                if op == 'Store':
                    self.store_mods(fr, st, f, ins, mods, cells, locs, body)
                else:
                    mods |= self.instr_mods(f, ins)
                if op in ('Call', 'Defer'):
                    for a in ins['args'] + [ins['fn']]:
                        if a['k'] == 'r':
                            v = st.env.get((fr.depth, a['n']))
                            self.clo_cells(st, v, cells)
                            if f.defblock.get(a['n']) in body:
                                d = f.defs[a['n']]
                                if d['op'] == 'MakeClosure':
                                    for x in d['args']:
                                        self.clo_cells(st, st.env.get((fr.depth, x.get('n'))), cells, True)
                                if d['op'] == 'UnOp' and d['x']['k'] == 'r':
                                    w = st.env.get((fr.depth, d['x']['n']))
                                    if isinstance(w, Cell):
                                        self.clo_cells(st, st.cells.get(w.id), cells)
        return mods, {c for c in cells if c in st.cells}, {l for l in locs if l in st.locs}

    def clo_cells(self, st, v, cells, direct=False, seen=None):
        seen = seen if seen is not None else set()
        if isinstance(v, Cell):
            if v.id in seen:
                return
            seen.add(v.id)
            if direct or True:
                inner = st.cells.get(v.id)
                if isinstance(inner, Clo):
                    self.clo_cells(st, inner, cells, True, seen)
                else:
                    cells.add(v.id)
        if isinstance(v, Clo):
            fn2 = self.prog.fns.get(v.fn)
            stored = set()
            if fn2:
                for b in fn2.blocks:
                    for i in b['ins']:
                        if i['op'] == 'Store' and i['x']['k'] == 'r':
                            stored.add(i['x']['n'])
                        for a in i.get('args', []):
                            if a and a['k'] == 'r':
                                stored.add(a['n'])
            for fv, bv in zip(fn2.free if fn2 else [], v.binds):
                if isinstance(bv, Cell):
                    inner = st.cells.get(bv.id)
                    if isinstance(inner, Clo):
                        self.clo_cells(st, bv, cells, True, seen)
                    elif fv['n'] in stored:
                        cells.add(bv.id)

    def store_mods(self, fr, st, f, ins, mods, cells, locs, body):
        a = ins['x']
        if a['k'] == 'r':
            v = st.env.get((fr.depth, a['n']))
            if isinstance(v, Cell):
                cells.add(v.id)
                return
            root = a['n']
            d = f.defs.get(root)
            while d and d['op'] in ('FieldAddr', 'IndexAddr') and d['x']['k'] == 'r':
                root = d['x']['n']
                d = f.defs.get(root)
            v = st.env.get((fr.depth, root))
            if d and d['op'] == 'Alloc' and f.defblock[root] in body:
                # object of this iteration
                pass
            elif isinstance(v, Loc) and st.locs[v.id].ref is None:
                locs.add(v.id)
                return
            elif isinstance(v, Cell):
                cells.add(v.id)
                return
        mods |= self.instr_mods(f, ins)

    # static write sets ---------------------------------------------------
    def ptr_keys(self, t):
        """Keys written by storing a value of type t through a pointer of unknown origin."""
        if self.prog.is_struct(t):
            r = set()
            for fl in self.prog.fields(t):
                if self.prog.is_struct(fl['type']):
                    r |= self.ptr_keys(fl['type'])
                elif self.prog.kind(fl['type']) == 'array':
                    raise Unsupported('array field')
                else:
                    r |= set(self.fkeys(fl['name'], fl['type']))
            return r
        if self.prog.kind(t) == 'array':
            return self.ekeys(self.prog.elem(t))
        return set()

    def ekeys(self, el):
        if self.prog.is_struct(el) or self.prog.kind(el) == 'array':
            return set()
        return {('E', el, pt) for pt in self.parts(el)} | self.C.elem_ghosts(el)

    def mkeys(self, mt):
        m = self.prog.under(mt)
        r = {('MD', mt)}
        if not (self.prog.is_struct(m['elem']) and not self.prog.fields(m['elem'])):
            r |= {('MV', mt, pt) for pt in self.parts(m['elem'])}
        return r

    def instr_mods(self, f, ins):
        op = ins['op']
        p = self.prog
        if op == 'Store':
            a = ins['x']
            if a['k'] == 'g':
                t = p.elem(a['t'])
                return self.ptr_keys(t) or {('G', a['n'], pt) for pt in self.parts(t)}
            d = f.defs.get(a['n'])
            t = p.elem(a['t'])
            if d is not None:
                if d['op'] == 'FieldAddr':
                    stt = p.elem(d['x']['t'])
                    fl = p.fields(stt)[d['i']]
                    if p.is_struct(fl['type']):
                        return self.ptr_keys(fl['type'])
                    return set(self.fkeys(fl['name'], fl['type'])) | self.C.field_ghosts(fl['name'], fl['type'])
                if d['op'] == 'IndexAddr':
                    return self.ekeys(t)
            return self.ptr_keys(t)
        if op == 'Alloc':
            return self.ptr_keys(ins['elem'])
        if op == 'MapUpdate':
            return self.mkeys(ins['x']['t'])
        if op == 'MakeMap':
            return self.mkeys(ins['t'])
        if op == 'MakeSlice':
            return self.ekeys(p.elem(ins['t']))
        if op == 'MakeInterface':
            t = ins['x']['t']
            if p.kind(t) == 'ptr':
                return set()
            if p.is_struct(t):
                return self.ptr_keys(t)
            if p.kind(t) in ('slice', 'func'):
                return set()
            return {('BOX', t, '')}
        if op == 'Convert':
            if p.kind(ins['t']) == 'slice':
                return self.ekeys(p.elem(ins['t']))
            return set()
        if op == 'Send':
            return set(self.C.chan_mods) | self.C.send_mods
        if op == 'Go':
            return set(self.C.chan_mods) | self.C.send_mods
        if op == 'MakeChan':
            return set(self.C.chan_mods)
        if op == 'UnOp' and ins['o'] == '<-':
            return set(self.C.chan_mods)
        if op in ('Call', 'Defer'):
            return self.call_mods(f, ins)
        return set()

    def call_mods(self, f, ins):
        p = self.prog
        fnv = ins['fn']
        if 'invoke' in ins:
            return set(self.C.invoke_mods(self, ins['iface'], ins['invoke']))
        if fnv['k'] == 'b':
            n = fnv['n']
            if n == 'append':
                return self.ekeys(p.elem(ins['t']))
            if n == 'delete':
                return {('MD', ins['args'][0]['t'])}
            if n == 'copy':
                return self.ekeys(p.elem(ins['args'][0]['t']))
            return set()
        if fnv['k'] == 'f':
            r = set(self.fn_mods(fnv['n']))
            # function values passed on may be called
            for a in ins['args']:
                if a['k'] == 'f':
                    r |= self.fn_mods(a['n'])
                elif a['k'] == 'r' and p.types[a['t']]['kind'] != 'basic' and p.kind(a['t']) == 'func':
                    r |= self.sig_mods(f, a)
            return r
        return self.sig_mods(f, fnv)

    def sig_mods(self, f, v):
        """Write set of calling a function value."""
        d = f.defs.get(v.get('n'))
        if d is not None and d['op'] == 'MakeClosure':
            return self.fn_mods(d['fn']['n'])
        sig = v['t']
        r = set()
        con = self.C.functype(sig)
        if con is not None:
            return set(con.mods(self))
        norm = self.signorm(sig)
        for n, g in self.prog.fns.items():
            if g is not None and self.taken(n) and self.signorm(g.sig) == norm:
                r |= self.fn_mods(n)
        return r

    def signorm(self, t):
        k = self.prog.under(t)
        return (tuple(k['params']), tuple(k['results']))

    def taken(self, name):
        tk = getattr(self, '_taken', None)
        if tk is None:
            tk = set()
            for n, g in self.prog.fns.items():
                if g is None:
                    continue
                for b in g.blocks:
                    for i in b['ins']:
                        if i['op'] == 'MakeClosure':
                            tk.add(i['fn']['n'])
                        for a in self.operands(i):
                            if a['k'] == 'f' and not (i['op'] in ('Call', 'Defer', 'Go') and a is i.get('fn')):
                                tk.add(a['n'])
            self._taken = tk
        return name in tk

    def fn_mods(self, name):
        if name in self.dead_fns:
            return set()
        memo = self.prog._mods.setdefault(id(self.C), {})
        if name in memo:
            return memo[name]
        # fixpoint over the static call graph
        g = self.prog.fns.get(name)
        if g is None:
            ext = self.C.extern(name)
            if ext is None:
                return set()
            return set(ext.mods)
        con = self.con_of(name)
        if con is not None and con.mods_override is not None:
            memo[name] = set(con.mods_override)
            return memo[name]
        order = []
        work = [name]
        seen = {name}
        while work:
            n = work.pop()
            order.append(n)
            gg = self.prog.fns.get(n)
            for c in self.static_callees(gg):
                if c not in seen and self.prog.fns.get(c) is not None and c not in memo:
                    seen.add(c)
                    work.append(c)
        cur = {n: set() for n in order}
        for n in order:
            c = self.con_of(n)
            if c is not None:
                cur[n] |= set(c.ghost_mods)
        self._in_fix = True
        ch = True
        for n in order:
            memo[n] = cur[n]
        while ch:
            ch = False
            for n in order:
                gg = self.prog.fns[n]
                con = self.con_of(n)
                if con is not None and con.mods_override is not None:
                    new = set(con.mods_override)
                else:
                    new = set(cur[n])
                    for b in gg.blocks:
                        for ins in b['ins']:
                            new |= self.instr_mods(gg, ins)
                if new != cur[n]:
                    cur[n] = new
                    memo[n] = new
                    ch = True
        return memo[name]

    def static_callees(self, g):
        r = set()
        for b in g.blocks:
            for i in b['ins']:
                if i['op'] in ('Call', 'Defer', 'Go') and 'invoke' not in i:
                    if i['fn']['k'] == 'f':
                        r.add(i['fn']['n'])
                    for a in i['args']:
                        if a['k'] == 'f':
                            r.add(a['n'])
                if i['op'] in ('Call', 'Defer') and 'invoke' not in i and i['fn']['k'] == 'r':
                    sig = i['fn']['t']
                    norm = self.signorm(sig)
                    for n, gg in self.prog.fns.items():
                        if gg is not None and self.taken(n) and self.signorm(gg.sig) == norm:
                            r.add(n)
                if i['op'] == 'MakeClosure':
                    r.add(i['fn']['n'])
                if 'invoke' in i and i.get('iface') == 'parse.Node':
                    for t in self.prog.node_types:
                        m = self.prog.impl['*' + t]['methods'].get(i['invoke'])
                        if m and self.prog.fns.get(m) is not None:
                            r.add(m)
        return r

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, b, st):
        f = fr.fn
        for ins in f.blocks[b]['ins']:
            self.cur_fn, self.cur_line = f.name, ins.get('line', self.cur_line)
            op = ins['op']
            if op == 'Phi':
                continue
            if op == 'If':
                c = z3.simplify(self.val(fr, st, ins['x']))
                s1, s2 = f.blocks[b]['succs']
                if z3.is_true(c):
                    return [(s1, st)]
                if z3.is_false(c):
                    return [(s2, st)]
                a, d = st.copy(), st
                a.reach = self.named_reach(And(st.reach, c))
                d.reach = self.named_reach(And(st.reach, Not(c)))
                return [(s1, a), (s2, d)]
            if op == 'Jump':
                return [(f.blocks[b]['succs'][0], st)]
            if op == 'Return':
                vs = [self.val(fr, st, a) for a in ins['args']]
                vs = [self.esc(st, v) if isinstance(v, (Loc, LitSlice)) else v for v in vs]
                fr.rets.append((st, vs, ins.get('line', 0)))
                return []
            if op == 'Panic':
                v = self.esc(st, self.val(fr, st, ins['x']))
                fr.excs.append((st, v, 'panic'))
                return []
            r = self.exec_instr(fr, st, ins)
            if r is not None:       # replaced state (after calls that fork)
                if r is False:
                    return []
                st = r
            if z3.is_false(st.reach):
                return []
        return []

    def setv(self, fr, st, ins, v):
        st.env[(fr.depth, ins['n'])] = v

    def nonnil(self, st, v, what):
        if isinstance(v, z3.ExprRef):
            self.oblige(st, v != 0, 'no nil dereference (%s)' % what, 'safe')

    def exec_instr(self, fr, st, ins):
        op = ins['op']
        p = self.prog
        f = fr.fn
        if op == 'Alloc':
            t = ins['elem']
            if p.kind(t) in ('struct', 'array'):
                if p.kind(t) == 'array' and p.under(t)['len'] > 64:
                    raise Unsupported('large array')
                self.counter += 1
                lid = 'o%d' % self.counter
                st.locs[lid] = LocalObj(t, self.zero(t))
                self.setv(fr, st, ins, Loc(lid, (), t))
            else:
                self.counter += 1
                cid = 'c%d' % self.counter
                if not hasattr(self, 'cell_types'):
                    self.cell_types = {}
                self.cell_types[cid] = t
                st.cells[cid] = self.zero(t)
                self.setv(fr, st, ins, Cell(cid, t))
        elif op == 'Store':
            v = self.val(fr, st, ins['y'])
            a = self.val(fr, st, ins['x'])
            t = p.elem(ins['x']['t'])
            if isinstance(a, z3.ExprRef):
                self.nonnil(st, a, 'store')
            self.store(st, a, v, t)
        elif op == 'UnOp':
            self.unop(fr, st, ins)
        elif op == 'BinOp':
            self.binop(fr, st, ins)
        elif op == 'FieldAddr':
            x = self.val(fr, st, ins['x'])
            stt = p.elem(ins['x']['t'])
            fl = p.fields(stt)[ins['i']]
            if isinstance(x, Loc):
                lo = st.locs[x.id]
                if lo.ref is None:
                    self.setv(fr, st, ins, Loc(x.id, x.path + (fl['name'],), fl['type']))
                    return
                x = self.esc(st, x)
            if isinstance(x, GlobLV):
                raise Unsupported('field of global')
            if not isinstance(x, z3.ExprRef):
                raise Unsupported('field address of %s' % type(x).__name__)
            self.nonnil(st, x, fl['name'])
            if p.is_struct(fl['type']):
                self.setv(fr, st, ins, self.nested_ref(st, x, ins['i']))
            else:
                self.setv(fr, st, ins, FieldLV(x, ('F', fl['name'], fl['type']), fl['type']))
        elif op == 'Field':
            x = self.val(fr, st, ins['x'])
            self.setv(fr, st, ins, x.f[p.fields(ins['x']['t'])[ins['i']]['name']])
        elif op == 'IndexAddr':
            self.index_addr(fr, st, ins)
        elif op == 'Extract':
            x = self.val(fr, st, ins['x'])
            self.setv(fr, st, ins, x.vs[ins['i']])
        elif op == 'MakeInterface':
            self.make_interface(fr, st, ins)
        elif op in ('ChangeInterface', 'ChangeType'):
            self.setv(fr, st, ins, self.val(fr, st, ins['x']))
        elif op == 'TypeAssert':
            self.type_assert(fr, st, ins)
        elif op == 'Slice':
            self.slice_op(fr, st, ins)
        elif op == 'MakeSlice':
            n = self.val(fr, st, ins['x'])
            c = self.val(fr, st, ins['y'])
            el = p.elem(ins['t'])
            self.oblige(st, And(n >= 0, n <= c), 'make: size in range', 'safe')
            r = self.alloc_ref(st)
            if p.is_struct(el):
                raise Unsupported('slice of structs')
            for pt in self.parts(el):
                key = ('E', el, pt)
                srt = self.part_sort(el, pt)
                z = self.zero(el)
                zz = getattr(z, pt) if pt else z
                st.comps[key] = z3.Store(self.comp(st, key), r, z3.K(Int, zz))
            if self.C.alloc_array_hook:
                self.C.alloc_array_hook(self, st, el, r, 0)
            self.setv(fr, st, ins, Slice(r, I(0), n, c, el))
        elif op == 'MakeMap':
            r = self.alloc_ref(st)
            mt = ins['t']
            m = p.under(mt)
            st.comps[('MD', mt)] = z3.Store(self.comp(st, ('MD', mt)), r, z3.K(self.sort_of(m['key']), F))
            self.setv(fr, st, ins, r)
        elif op == 'MapUpdate':
            m = self.esc(st, self.val(fr, st, ins['x']))
            k = self.esc(st, self.val(fr, st, ins['y']))
            v = self.val(fr, st, ins['z'])
            self.oblige(st, m != 0, 'no write to a nil map', 'safe')
            self.C.on_map_set(self, st, ins['x']['t'], m, k, v)
            self.map_set(st, ins['x']['t'], m, k, v)
        elif op == 'Lookup' or op == 'Index' and p.kind(ins['x']['t']) == 'basic':
            self.lookup(fr, st, ins)
        elif op == 'MakeClosure':
            self.setv(fr, st, ins, Clo(ins['fn']['n'], [self.val(fr, st, a) for a in ins['args']]))
        elif op == 'Range':
            x = self.val(fr, st, ins['x'])
            t = ins['x']['t']
            self.counter += 1
            eid = self.counter
            if p.kind(t) == 'map':
                st.cells[('it', eid)] = z3.K(self.sort_of(p.under(t)['key']), F)
                self.setv(fr, st, ins, Iter('map', self.esc(st, x), t, eid))
            else:
                st.cells[('it', eid)] = I(0)
                self.setv(fr, st, ins, Iter('str', x, t, eid))
        elif op == 'Next':
            self.next_op(fr, st, ins)
        elif op == 'Convert':
            self.convert(fr, st, ins)
        elif op == 'Call':
            return self.call(fr, st, ins)
        elif op == 'Defer':
            args = [self.val(fr, st, a) for a in ins['args']]
            fv = ins['fn'] if ins['fn']['k'] in 'fb' else self.val(fr, st, ins['fn'])
            st.defers = st.defers + ((fr.depth, ins, fv, args, T),)
        elif op == 'RunDefers':
            return self.run_defers(fr, st)
        elif op == 'MakeChan':
            r = self.alloc_ref(st)
            self.C.make_chan(self, st, r)
            self.setv(fr, st, ins, r)
        elif op == 'Go':
            self.C.go_stmt(self, fr, st, ins)
        elif op == 'Send':
            self.C.send(self, fr, st, ins)
        else:
            raise Unsupported('instruction ' + op)

    def map_set(self, st, mt, m, k, v):
        kd = ('MD', mt)
        D = self.comp(st, kd)
        st.comps[kd] = z3.Store(D, m, z3.Store(z3.Select(D, m), k, T))
        mm = self.prog.under(mt)
        if self.prog.is_struct(mm['elem']):
            if self.prog.fields(mm['elem']):
                raise Unsupported('map of structs')
            return
        v = self.esc(st, v)
        for pt in self.parts(mm['elem']):
            kv = ('MV', mt, pt)
            D = self.comp(st, kv)
            st.comps[kv] = z3.Store(D, m, z3.Store(z3.Select(D, m), k, getattr(v, pt) if pt else self.scalar(v)))

    def map_dom(self, st, mt, m):
        return z3.Select(self.comp(st, ('MD', mt)), m)

    def map_get(self, st, mt, m, k):
        """(value or zero, ok)"""
        mm = self.prog.under(mt)
        ok = z3.And(m != 0, z3.Select(self.map_dom(st, mt, m), k))
        et = mm['elem']
        if self.prog.is_struct(et):
            return StructV(et, {}), ok
        z = self.zero(et)
        if self.prog.kind(et) == 'slice':
            vs = [z3.If(ok, z3.Select(z3.Select(self.comp(st, ('MV', mt, pt)), m), k), getattr(z, pt)) for pt in ('arr', 'off', 'len', 'cap')]
            return self.typed(st, Slice(*vs, self.prog.elem(et)), et), ok
        raw = z3.Select(z3.Select(self.comp(st, ('MV', mt, '')), m), k)
        return self.typed(st, z3.If(ok, raw, z), et), ok

    def lookup(self, fr, st, ins):
        p = self.prog
        x = self.val(fr, st, ins['x'])
        k = self.val(fr, st, ins['y'])
        t = ins['x']['t']
        if p.kind(t) == 'map':
            v, ok = self.map_get(st, t, self.esc(st, x), self.esc(st, k))
            self.C.on_map_get(self, st, t, x, k)
            self.setv(fr, st, ins, TupleV([v, ok]) if ins['commaok'] else v)
        else:
            self.oblige(st, And(k >= 0, k < S.len(x)), 'string index in range', 'safe')
            v = S.char(x, k)
            self.fact(And(v >= 0, v <= 255))
            self.setv(fr, st, ins, v)

    def next_op(self, fr, st, ins):
        it = self.val(fr, st, ins['x'])
        ck = ('it', it.eid)
        vis = st.cells[ck]
        if it.kind == 'str':
            pos = vis
            ok = pos < S.len(it.m)
            r = self.fresh('rune', Int)
            w = self.fresh('w', Int)
            self.fact(And(w >= 1, w <= 4, z3.Implies(ok, pos + w <= S.len(it.m)), r >= 0, r <= 0x10FFFF,
                          z3.Implies(z3.And(ok, S.char(it.m, pos) < 128), z3.And(r == S.char(it.m, pos), w == 1)),
                          z3.Implies(z3.And(ok, S.char(it.m, pos) >= 128), r >= 128)))
            st.cells[ck] = z3.If(ok, pos + w, pos)
            self.setv(fr, st, ins, TupleV([ok, pos, r]))
            return
        mt = it.mt
        mm = self.prog.under(mt)
        dom = self.map_dom(st, mt, it.m)
        ks = self.sort_of(mm['key'])
        ok = self.fresh('more', Bool)
        k = self.fresh('k', ks)
        self.typed(st, k, mm['key'])
        q = self.fresh('q', ks)
        self.fact(Implies(ok, And(it.m != 0, z3.Select(dom, k), z3.Not(z3.Select(vis, k)))), st)
        pdom, pvis = self.named(dom), self.named(vis)
        self.fact(Implies(z3.And(z3.Not(ok), it.m != 0), z3.ForAll([q], z3.Implies(z3.Select(pdom, q), z3.Select(pvis, q)),
                  patterns=[z3.Select(pdom, q), z3.Select(pvis, q)])), st)
        self.fact(Implies(it.m == 0, z3.Not(ok)), st)
        st.cells[ck] = z3.If(ok, z3.Store(vis, k, T), vis)
        c2 = self.fresh('vis', vis.sort())
        self.facts.append(c2 == st.cells[ck])
        st.cells[ck] = c2
        if self.prog.is_struct(mm['elem']):
            v = StructV(mm['elem'], {})
        else:
            v, _ = self.map_get(st, mt, it.m, k)
        self.C.on_map_next(self, st, it, ok, k, v)
        self.setv(fr, st, ins, TupleV([ok, k, v]))

    def unop(self, fr, st, ins):
        o = ins['o']
        if o == '*':
            a = self.val(fr, st, ins['x'])
            t = self.prog.elem(ins['x']['t'])
            if isinstance(a, z3.ExprRef):
                self.nonnil(st, a, 'load')
            if ins['x']['k'] == 'g' and isinstance(a, GlobLV):
                x = self.load(st, a, t)
                if t == '*os.File':     # os.Stdin and the like
                    self.fact(And(x != 0, self.typeOf(x) == self.type_id(t)))
                self.setv(fr, st, ins, x)
                return
            self.setv(fr, st, ins, self.load(st, a, t))
            return
        x = self.val(fr, st, ins['x'])
        if o == '!':
            self.setv(fr, st, ins, Not(x))
        elif o == '-':
            self.setv(fr, st, ins, -x)
        elif o == '<-':
            self.setv(fr, st, ins, self.C.recv(self, fr, st, ins, x))
        else:
            raise Unsupported('unary ' + o)

    def binop(self, fr, st, ins):
        o = ins['o']
        x = self.val(fr, st, ins['x'])
        y = self.val(fr, st, ins['y'])
        t = ins['x']['t']
        r = None
        if o in ('==', '!='):
            r = self.equal(st, x, y, t)
            if o == '!=':
                r = Not(r)
        elif isinstance(x, z3.ExprRef) and x.sort() == Str:
            if o == '+':
                r = S.cat(x, y)
            elif o == '<':
                r = S.lt(x, y)
            elif o == '>':
                r = S.lt(y, x)
            elif o == '<=':
                r = Not(S.lt(y, x))
            elif o == '>=':
                r = Not(S.lt(x, y))
        elif o == '+':
            r = x + y
        elif o == '-':
            r = x - y
        elif o == '*':
            r = x * y
        elif o in ('<', '<=', '>', '>='):
            r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]
        elif o in ('/', '%'):
            self.oblige(st, y != 0, 'no division by zero', 'safe')
            yv = ival(y)
            if yv is None or yv <= 0:
                raise Unsupported('division by a non-constant')
            q = z3.If(x >= 0, x / y, -((-x) / y))
            r = q if o == '/' else x - y * q
        elif o == '&':
            yv = ival(y)
            if yv is not None and yv >= 0 and (yv & (yv + 1)) == 0:
                r = x % (yv + 1)     # two's complement and with a mask of low bits
            elif yv is not None and yv > 0 and (yv & (yv - 1)) == 0:
                r = z3.If((x / yv) % 2 == 1, I(yv), I(0))
        elif o in ('<<',):
            yv = ival(y)
            if yv is not None:
                r = x * (1 << yv)
        elif o == '>>':
            yv = ival(y)
            if yv is not None:
                r = x / (1 << yv)
        elif o == '|':
            xv, yv = ival(x), ival(y)
            if xv is not None and yv is not None:
                r = I(xv | yv)
        if r is None:
            raise Unsupported('binary %s' % o)
        if self.prog.kind(ins['t']) == 'basic' and isinstance(r, z3.ExprRef) and r.sort() in (Int, Bool):
            r = z3.simplify(r)
        self.setv(fr, st, ins, r)

    def equal(self, st, x, y, t):
        kd = self.prog.kind(t)
        if kd == 'slice':
            a, b = x, y
            if isinstance(a, LitSlice) or isinstance(b, LitSlice):
                return F if (a.hi - a.lo if isinstance(a, LitSlice) else b.hi - b.lo) >= 0 else F
            # comparison with nil
            s = a if not (ival(a.arr) == 0) else b
            return s.arr == 0
        if kd == 'func':
            xs = x if not isinstance(x, Clo) else None
            ys = y if not isinstance(y, Clo) else None
            if xs is None or ys is None:
                return F      # a closure compared with nil
            return Eq(x, y)
        if isinstance(x, (Loc,)) or isinstance(y, Loc):
            if isinstance(x, Loc) and isinstance(y, Loc) and x.id == y.id and x.path == y.path:
                return T
            a, b = (x, y) if isinstance(x, Loc) else (y, x)
            if isinstance(b, z3.ExprRef) and ival(b) == 0:
                return F
            x, y = self.esc(st, x), self.esc(st, y)
        if isinstance(x, (Cell, FieldLV, ElemLV, GlobLV)) or isinstance(y, (Cell, FieldLV, ElemLV, GlobLV)):
            raise Unsupported('pointer comparison')
        if isinstance(x, StructV):
            return And(*[self.equal(st, x.f[f['name']], y.f[f['name']], f['type']) for f in self.prog.fields(t)])
        return Eq(x, y)

    def index_addr(self, fr, st, ins):
        x = self.val(fr, st, ins['x'])
        i = self.val(fr, st, ins['y'])
        p = self.prog
        el = p.elem(ins['t'])
        if isinstance(x, Loc):
            lo = st.locs[x.id]
            if lo.ref is None:
                n = len(self.load(st, x, x.t))
                c = ival(i)
                if c is not None:
                    if not 0 <= c < n:
                        self.oblige(st, F, 'index in range', 'safe')
                        c = 0
                    self.setv(fr, st, ins, Loc(x.id, x.path + (c,), el))
                    return
            x = self.esc(st, x)
            n = p.under(p.elem(ins['x']['t']))['len']
            self.oblige(st, And(i >= 0, i < n), 'index in range', 'safe')
            self.setv(fr, st, ins, ElemLV(x, i, el))
            return
        if isinstance(x, LitSlice):
            lo = st.locs[x.id]
            c = ival(i)
            if lo.ref is None and c is not None:
                if not 0 <= c < x.hi - x.lo:
                    self.oblige(st, F, 'index in range', 'safe')
                    c = 0
                self.setv(fr, st, ins, Loc(x.id, (x.lo + c,), el))
                return
            x = self.esc(st, x)
        if isinstance(x, Slice):
            self.oblige(st, And(i >= 0, i < x.len), 'index in range', 'safe')
            self.setv(fr, st, ins, ElemLV(x.arr, z3.simplify(x.off + i), el))
            return
        if isinstance(x, z3.ExprRef):   # pointer to array
            at = p.elem(ins['x']['t'])
            n = p.under(at)['len']
            self.oblige(st, And(i >= 0, i < n), 'index in range', 'safe')
            if ins['x']['k'] == 'g' and ins['x']['n'] in p.gconst and p.gconst[ins['x']['n']][0] == 'array':
                g = ins['x']['n']
                if g not in self.tables_used:
                    self.tables_used.add(g)
                    tb = p.gconst[g][1]
                    row = z3.Select(self.init_comp(('E', el, '')), x)
                    z = self.zero(el)
                    for kk in range(n):
                        vv = self.const({'k': 'c', 'v': tb[kk], 't': el}) if kk in tb else z
                        self.fact(z3.Select(row, I(kk)) == vv)
                self.setv(fr, st, ins, ElemLV(x, i, el))
                return
            self.setv(fr, st, ins, ElemLV(x, i, el))
            return
        raise Unsupported('index of %s' % type(x).__name__)

    def init_comp(self, key):
        s = State()
        s.comps = {}
        return self.comp(s, key)

    def make_interface(self, fr, st, ins):
        x = self.val(fr, st, ins['x'])
        t = ins['x']['t']
        p = self.prog
        self.setv(fr, st, ins, self.to_iface(st, x, t))

    def to_iface(self, st, x, t):
        p = self.prog
        if p.kind(t) == 'ptr':
            if p.is_struct(p.elem(t)):
                if isinstance(x, Loc) and not x.path:
                    return self.esc(st, x)
                if isinstance(x, z3.ExprRef):
                    if z3.is_int_value(x) and x.as_long() >= 10:
                        self.fact(self.typeOf(x) == self.type_id(t))     # the address of a global
                    return x
            # pointer to something else: an opaque box
            r = self.alloc_ref(st)
            self.fact(self.typeOf(r) == self.type_id(t), st)
            return r
        r = self.alloc_ref(st)
        self.fact(self.typeOf(r) == self.type_id(t), st)
        if p.is_struct(t):
            self.store_struct(st, r, t, x)
        elif p.kind(t) in ('slice', 'func', 'map'):
            pass
        else:
            key = ('BOX', t, '')
            st.comps[key] = z3.Store(self.comp(st, key), r, self.scalar(x))
        return r

    def unbox(self, st, v, t):
        p = self.prog
        if p.kind(t) == 'ptr':
            return v
        if p.is_struct(t):
            return self.load_struct(st, v, t)
        if p.kind(t) in ('slice', 'func', 'map'):
            raise Unsupported('unboxing ' + t)
        return self.typed(st, z3.Select(self.comp(st, ('BOX', t, '')), v), t)

    def type_assert(self, fr, st, ins):
        x = self.esc(st, self.val(fr, st, ins['x']))
        at = ins['at']
        p = self.prog
        if p.kind(at) == 'iface':
            ok = self.implements(x, at)
            val = x
        else:
            ok = self.typeOf(x) == self.type_id(at)
            val = None
        if ins['commaok']:
            if val is None:
                if p.kind(at) == 'ptr':
                    # x is only looked at where ok holds; keeping it avoids an ite
                    val = z3.If(ok, x, I(0))
                else:
                    val = self.unbox(st, x, at)
            else:
                val = z3.If(ok, x, I(0))
            self.setv(fr, st, ins, TupleV([val, ok]))
        else:
            self.oblige(st, ok, 'type assertion to %s holds' % at, 'safe')
            if val is None:
                val = x if p.kind(at) == 'ptr' else self.unbox(st, x, at)
            self.setv(fr, st, ins, val)

    def implements(self, x, at):
        # closed world for the module's types; unknown for others
        ms = set(self.prog.under(at)['methods'])
        ids = [self.type_id(t) for t, e in self.prog.impl.items() if ms <= set(e['methods'])]
        u = fn('impl_' + at, Int, Bool)
        ty = self.typeOf(x)
        for t, e in self.prog.impl.items():
            self.fact(u(I(self.type_id(t))) == z3.BoolVal(ms <= set(e['methods'])))
        self.fact(z3.Not(u(I(0))))
        return u(ty)

    def slice_op(self, fr, st, ins):
        x = self.val(fr, st, ins['x'])
        p = self.prog
        lo = self.val(fr, st, ins['lo']) if ins['lo'] else None
        hi = self.val(fr, st, ins['hi']) if ins['hi'] else None
        if ins.get('max'):
            raise Unsupported('full slice expression')
        t = ins['x']['t']
        if p.kind(t) == 'ptr':   # pointer to array
            at = p.elem(t)
            n = p.under(at)['len']
            el = p.elem(at)
            if isinstance(x, Loc) and not x.path and st.locs[x.id].ref is None:
                a = ival(lo) if lo is not None else 0
                b = ival(hi) if hi is not None else n
                if a == 0 and b == n:
                    self.setv(fr, st, ins, LitSlice(x.id, 0, n, el))
                    return
            x = self.esc(st, x)
            x = Slice(x, I(0), I(n), I(n), el)
        if isinstance(x, LitSlice):
            x = self.esc(st, x)
        if isinstance(x, Slice):
            l = lo if lo is not None else I(0)
            h = hi if hi is not None else x.len
            self.oblige(st, And(l >= 0, l <= h, h <= x.cap), 'slice bounds in range', 'safe')
            if self.C.seq_hook:
                self.C.seq_hook(self, st, 'slice', x.elem, x.arr, z3.simplify(x.off + l), z3.simplify(x.off + h))
            self.setv(fr, st, ins, Slice(x.arr, z3.simplify(x.off + l), z3.simplify(h - l), z3.simplify(x.cap - l), x.elem))
            return
        # string
        l = lo if lo is not None else I(0)
        h = hi if hi is not None else S.len(x)
        self.oblige(st, And(l >= 0, l <= h, h <= S.len(x)), 'string slice bounds in range', 'safe')
        self.setv(fr, st, ins, S.sub(x, l, h))

    def convert(self, fr, st, ins):
        x = self.val(fr, st, ins['x'])
        p = self.prog
        ft, tt = ins['x']['t'], ins['t']
        fk, tk = p.kind(ft), p.kind(tt)
        if fk == 'basic' and tk == 'basic':
            fs, ts = self.sort_of(ft), self.sort_of(tt)
            if fs == ts:
                if ts == Int:
                    # a narrowing conversion keeps the value only if it fits
                    rng = {'uint8': (0, 255), 'byte': (0, 255), 'int32': (-2**31, 2**31 - 1), 'rune': (-2**31, 2**31 - 1)}.get(p.under(tt)['name'])
                    if rng and ival(x) is None:
                        y = self.fresh('conv', Int)
                        self.fact(And(y >= rng[0], y <= rng[1], z3.Implies(z3.And(x >= rng[0], x <= rng[1]), y == x)))
                        x = y
                self.setv(fr, st, ins, x)
                return
            if fs == Int and ts == Str:
                xv = ival(x)
                self.setv(fr, st, ins, S.lit(chr(xv)) if xv is not None else S.fromrune(x))
                return
        if fk == 'basic' and tk == 'slice':
            el = p.elem(tt)
            r = self.alloc_ref(st)
            if p.under(el)['name'] in ('int32', 'rune'):
                v = S.value(x)
                key = ('E', el, '')
                if v is not None:
                    rs = [ord(c) for c in v.decode('utf8', 'replace')]
                    row = z3.K(Int, I(0))
                    for i, c in enumerate(rs):
                        row = z3.Store(row, I(i), I(c))
                    n = I(len(rs))
                else:
                    row, n = S.runerow(x), S.runelen(x)
                    q = self.fresh('q', Int)
                    self.fact(And(n >= 0, n <= S.len(x), (n == 0) == (S.len(x) == 0)))
                st.comps[key] = z3.Store(self.comp(st, key), r, row)
                self.setv(fr, st, ins, Slice(r, I(0), n, self.cap_for(st, n), el))
                return
            key = ('E', el, '')
            row = self.fresh('bytes', self.key_sort(key).range())
            st.comps[key] = z3.Store(self.comp(st, key), r, row)
            self.setv(fr, st, ins, Slice(r, I(0), S.len(x), self.cap_for(st, S.len(x)), el))
            return
        if fk == 'slice' and tk == 'basic':
            el = p.elem(ft)
            x = self.esc(st, x)
            if p.under(el)['name'] in ('int32', 'rune'):
                self.C.on_string(self, st, x)
                self.setv(fr, st, ins, S.fromrunes(self.row(st, el, x.arr), x.off, x.len))
            else:
                self.setv(fr, st, ins, fn('sfrombytes', z3.ArraySort(Int, Int), Int, Int, Str)(self.row(st, el, x.arr), x.off, x.len))
            return
        raise Unsupported('conversion %s to %s' % (ft, tt))

    def cap_for(self, st, n):
        c = self.fresh('cap', Int)
        self.fact(c >= n)
        return c

    # ------------------------------------------------------------ calls
    def call(self, fr, st, ins):
        fnv = ins['fn']
        if fnv['k'] == 'b' and 'invoke' not in ins:
            return self.builtin(fr, st, ins, fnv['n'])
        args = [self.val(fr, st, a) for a in ins['args']]
        if 'invoke' in ins:
            recv = self.esc(st, self.val(fr, st, fnv))
            self.oblige(st, recv != 0, 'no method call on a nil interface (%s)' % ins['invoke'], 'safe')
            return self.finish_call(fr, st, ins, self.do_invoke(fr, st, ins, recv, args))
        if fnv['k'] == 'f':
            return self.finish_call(fr, st, ins, self.do_call(fr, st, fnv['n'], args, [], ins))
        v = self.val(fr, st, fnv)
        return self.finish_call(fr, st, ins, self.do_dyn(fr, st, v, args, ins))

    def finish_call(self, fr, st, ins, res):
        """res: (rets: list of (state, values), excs: list of (state, value, why))"""
        rets, excs = res
        for s, v, why in excs:
            if not z3.is_false(s.reach):
                fr.excs.append((s, v, why))
        if not rets:
            return False
        n = ins.get('n')
        if n:
            rr = []
            for s, vs in rets:
                v = vs[0] if len(vs) == 1 else TupleV(vs)
                s.env[(fr.depth, n)] = v
                rr.append(s)
        else:
            rr = [s for s, _ in rets]
        out = self.merge_states(rr)
        if out is None:
            return False
        if n and (fr.depth, n) not in out.env and any(True for _ in rets):
            if rets[0][1]:
                raise Unsupported('merging results of %s' % ins['fn'].get('n'))
        return out

    def do_invoke(self, fr, st, ins, recv, args):
        con = self.C.iface(ins['iface'], ins['invoke'])
        if con is not None:
            return self.apply_contract(st, con, [recv] + args, ins, self.invoke_sig(ins), recv_iface=True)
        ext = self.C.extern('iface:%s.%s' % (ins['iface'], ins['invoke']))
        if ext is not None:
            self.externs.add('iface:%s.%s' % (ins['iface'], ins['invoke']))
            return ext.run(self, fr, st, [recv] + args, ins)
        raise Unsupported('call of interface method %s.%s' % (ins['iface'], ins['invoke']))

    def invoke_sig(self, ins):
        return ins['t']

    def do_dyn(self, fr, st, v, args, ins):
        if isinstance(v, Clo):
            return self.do_call(fr, st, v.fn, args, v.binds, ins)
        if not isinstance(v, z3.ExprRef):
            raise Unsupported('call of function value')
        sig = ins['fn']['t']
        c = ival(v)
        if c is not None and c in self.func_names:
            return self.do_call(fr, st, self.func_names[c], args, [], ins)
        if c is not None and c in getattr(self, '_clos', {}):
            k = self._clos[c]
            return self.do_call(fr, st, k.fn, args, k.binds, ins)
        con = self.C.functype(sig)
        if con is not None:
            self.oblige(st, v != 0, 'no call of a nil function', 'safe')
            return self.apply_contract(st, con, ([v] if getattr(con, 'fnval', False) else []) + args, ins, ins['t'])
        # an ite over known functions
        ids = set()
        for t in subterms([v]):
            if z3.is_int_value(t) and (t.as_long() in self.func_names or t.as_long() in getattr(self, '_clos', {})):
                ids.add(t.as_long())
        if not ids:
            raise Unsupported('call of unknown function value')
        self.oblige(st, Or(*[v == i for i in sorted(ids)]), 'called function is known', 'safe')
        rets, excs = [], []
        for i in sorted(ids):
            s = st.copy()
            s.reach = self.named_reach(And(st.reach, v == i))
            if i in self.func_names:
                r, e = self.do_call(fr, s, self.func_names[i], args, [], ins)
            else:
                k = self._clos[i]
                r, e = self.do_call(fr, s, k.fn, args, k.binds, ins)
            rets += r
            excs += e
        return rets, excs

    def do_call(self, fr, st, name, args, free, ins):
        con = self.con_of(name)
        g = self.prog.fns.get(name)
        if con is not None and g is not None:
            return self.apply_contract(st, con, args, ins, None, g=g, free=free)
        ext = self.C.extern(name)
        if ext is not None:
            self.externs.add(name)
            return ext.run(self, fr, st, args, ins)
        if g is None:
            return self.unknown_external(st, name, args, ins)
        oc = self.dead_fns.get(name) or self.C.auto_opaque(self, name, g)
        if oc is not None:
            self.opaque_fns.add(name)
            return self.apply_contract(st, oc, args, ins, None, g=g, free=free)
        if self.stack.count(name) >= 1:
            raise Unsupported('recursive call of %s without a contract' % name)
        if len(self.stack) > 12:
            raise Unsupported('inlining too deep')
        self.inlined.add(name)
        return self.inline(fr, st, g, args, free)

    PURE_PKGS = ('strings', 'strconv', 'unicode', 'unicode/utf8', 'utf8', 'bytes', 'path', 'filepath', 'math', 'errors', 'fmt')

    def unknown_external(self, st, name, args, ins):
        """A library function without a contract: assumed not to change the memory it is not
        given; nothing is known about its results."""
        pkg = name.lstrip('(*').split('.')[0].split('/')[-1]
        if pkg not in self.PURE_PKGS or name.startswith('('):
            raise Unsupported('call of external function %s' % name)
        if any(isinstance(a, (Clo, Loc, Cell, FieldLV, ElemLV)) for a in args):
            raise Unsupported('call of external function %s' % name)
        if any(p.startswith('func') or p.startswith('*') for p in self.ext_param_types(ins)):
            raise Unsupported('call of external function %s' % name)
        self.externs.add(name)
        self.assumed.add('%s: results arbitrary, no effect on the heap' % name)
        st = st.copy()
        n2 = self.fresh('nxt', Int)
        self.fact(n2 >= st.nxt)
        st.nxt = n2
        return [(st, [self.fresh_val(st, t, 'ext') for t in self.result_types(ins)])], []

    def ext_param_types(self, ins):
        return [a['t'] for a in ins['args'] if a and 't' in a]

    def inline(self, fr, st, g, args, free):
        self.stack.append(g.name)
        save = (self.cur_fn, self.cur_line)
        nfr = Frame(g, self, self.new_depth(), free)
        s = st.copy()
        outer_defers = s.defers
        s.defers = ()
        for prm, a in zip(g.params, args):
            s.env[(nfr.depth, prm['n'])] = a
        for fv, b in zip(g.free, free):
            s.env[(nfr.depth, fv['n'])] = b
        self.run_body(nfr, s)
        self.stack.pop()
        self.cur_fn, self.cur_line = save
        rets = []
        for s2, vs, _ in nfr.rets:
            self.drop_env(s2, nfr.depth)
            s2.defers = outer_defers
            rets.append((s2, vs))
        excs = []
        for s2, v, why in nfr.excs:
            self.drop_env(s2, nfr.depth)
            s2.defers = outer_defers
            excs.append((s2, v, why))
        return rets, excs

    def new_depth(self):
        self._depth = getattr(self, '_depth', 0) + 1
        return self._depth

    def drop_env(self, st, depth):
        for k in [k for k in st.env if k[0] >= depth]:
            del st.env[k]

    def run_body(self, fr, st):
        f = fr.fn
        blocks = set(f.rpo)
        if 0 in f.loops:
            raise Unsupported('entry block is a loop header')
        self.run_region(fr, blocks, 0, [(st, None)])
        # panics with deferred calls
        if any(i['op'] == 'Defer' for b in f.blocks for i in b['ins']):
            excs, fr.excs = fr.excs, []
            for s, v, why in excs:
                mine = [d for d in s.defers if d[0] == fr.depth]
                if not mine:
                    fr.excs.append((s, v, why))
                    continue
                s = s.copy()
                s.panic = (T, v)
                fr.pan_why = why
                s2 = self.run_defers(fr, s)
                if s2 is False:
                    continue
                pan, pv = s2.panic if s2.panic is not None else (F, I(0))
                pan = z3.simplify(pan)
                if not z3.is_false(pan):
                    s3 = s2.copy()
                    s3.reach = self.named_reach(And(s2.reach, pan))
                    s3.panic = None
                    fr.excs.append((s3, pv, why))
                if not z3.is_true(pan):
                    s4 = s2.copy()
                    s4.reach = self.named_reach(And(s2.reach, Not(pan)))
                    s4.panic = None
                    if f.recover is None:
                        vs = [self.zero(t) for t in f.results]
                        fr.rets.append((s4, vs, 0))
                    else:
                        self.exec_block(fr, f.recover, s4)

    def run_defers(self, fr, st):
        mine = [d for d in st.defers if d[0] == fr.depth]
        st.defers = tuple(d for d in st.defers if d[0] != fr.depth)
        for (_, ins, fv, args, cond) in reversed(mine):
            saved = st.panic
            skip = None
            if not z3.is_true(cond):
                skip = st.copy()
                skip.reach = self.named_reach(And(st.reach, Not(cond)))
                st = st.copy()
                st.reach = self.named_reach(And(st.reach, cond))
            if isinstance(fv, dict):
                if fv['k'] == 'b':
                    if fv['n'] != 'close' or not z3.is_true(cond):
                        raise Unsupported('deferred builtin')
                    self.C.close(self, fr, st, ins, args[0])
                    continue
                r = self.do_call(fr, st, fv['n'], args, [], ins)
            elif 'invoke' in ins:
                r = self.do_invoke(fr, st, ins, self.esc(st, fv), args)
            else:
                r = self.do_dyn(fr, st, fv, args, ins)
            rets, excs = r
            for s, v, why in excs:
                s.panic = None
                fr.excs.append((s, v, why))
            m = self.merge_states([s for s, _ in rets] + ([skip] if skip is not None else []))
            if m is None:
                return False
            st = m
        return st

    def builtin(self, fr, st, ins, n):
        p = self.prog
        if n == 'recover':
            pan = st.panic
            if pan is None:
                self.setv(fr, st, ins, I(0))
            else:
                self.setv(fr, st, ins, Ite(pan[0], pan[1], I(0)))
                self.fact(Implies(pan[0], And(pan[1] != 0, self.typeOf(pan[1]) != 0)), st)
                st.panic = (F, I(0))
            return
        args = [self.val(fr, st, a) for a in ins['args']]
        if n == 'len':
            x = args[0]
            if isinstance(x, Slice):
                r = x.len
            elif isinstance(x, LitSlice):
                r = I(x.hi - x.lo)
            elif isinstance(x, z3.ExprRef) and x.sort() == Str:
                r = S.len(x)
            elif p.kind(ins['args'][0]['t']) == 'map':
                r = self.map_len(st, ins['args'][0]['t'], x)
            else:
                raise Unsupported('len')
            self.setv(fr, st, ins, r)
        elif n == 'cap':
            x = self.esc(st, args[0])
            self.setv(fr, st, ins, x.cap)
        elif n == 'append':
            self.setv(fr, st, ins, self.append(st, args[0], args[1], p.elem(ins['t'])))
        elif n == 'delete':
            mt = ins['args'][0]['t']
            m = args[0]
            kd = ('MD', mt)
            D = self.comp(st, kd)
            k = self.esc(st, args[1])
            st.comps[kd] = z3.If(m == 0, D, z3.Store(D, m, z3.Store(z3.Select(D, m), k, F))) if ival(m) is None else D
            c = self.fresh('dom', D.sort())
            self.facts.append(c == st.comps[kd])
            st.comps[kd] = c
        elif n == 'close':
            self.C.close(self, fr, st, ins, args[0])
        elif n == 'ssa:wrapnilchk':
            self.setv(fr, st, ins, args[0])
        else:
            raise Unsupported('builtin ' + n)

    def map_len(self, st, mt, m):
        ks = self.sort_of(self.prog.under(mt)['key'])
        D = self.named(self.map_dom(st, mt, m))
        card = fn('card_%s' % ks, z3.ArraySort(ks, Bool), Int)
        c = card(D)
        q = self.fresh('q', ks)
        w = self.fresh('w', ks)
        self.fact(And(c >= 0, z3.Implies(c == 0, z3.ForAll([q], z3.Not(z3.Select(D, q)), patterns=[z3.Select(D, q)])),
                      z3.Implies(c != 0, z3.Select(D, w))))
        return z3.If(m == 0, I(0), c)

    def append(self, st, s, t, el):
        if self.prog.is_struct(el):
            raise Unsupported('append of structs')
        if isinstance(t, z3.ExprRef) and t.sort() == Str:
            raise Unsupported('append of a string')
        s = self.esc(st, s)
        if isinstance(t, LitSlice) and st.locs[t.id].ref is None:
            xs = [self.esc(st, x) for x in st.locs[t.id].val[t.lo:t.hi]]
            tl = I(len(xs))
        else:
            t = self.esc(st, t)
            xs = None
            tl = t.len
            if ival(tl) == 0:
                return s
        n2 = z3.simplify(s.len + tl)
        grow = z3.simplify(n2 > s.cap)
        if xs is None:
            # appending nothing to s returns s
            grow = z3.And(grow, tl > 0)
        g = self.named_reach(grow)
        newref = self.alloc_ref(st) if not z3.is_false(g) else st.nxt
        arr2 = Ite(g, newref, s.arr)
        capn = self.cap_for(st, n2)
        cap2 = Ite(g, capn, s.cap)
        H0 = st.comps.get(('E', el, ''))
        for pt in self.parts(el):
            key = ('E', el, pt)
            H = self.comp(st, key)
            row = z3.Select(H, s.arr)
            if xs is not None:
                r2 = row
                for j, x in enumerate(xs):
                    r2 = z3.Store(r2, z3.simplify(s.off + s.len + j), getattr(x, pt) if pt else self.scalar(x))
            else:
                trow = z3.Select(H, t.arr)
                r2 = self.fresh('row', row.sort())
                q = self.fresh('q', Int)
                mid = s.off + s.len
                self.fact(z3.ForAll([q], z3.Select(r2, q) == z3.If(z3.And(q >= mid, q < mid + tl),
                                    z3.Select(trow, t.off + (q - mid)), z3.Select(row, q)),
                                    patterns=[z3.Select(r2, q)]))
                # reading the source triggers reading the copy
                q2 = self.fresh('q', Int)
                if pt == '':
                    self.concats.append((r2, row, s.off, mid, trow, t.off, tl))
            row2 = self.fresh('row', row.sort()) if xs is not None else r2
            if xs is not None:
                self.facts.append(row2 == r2)
            st.comps[key] = z3.Store(H, arr2, row2)
        if self.C.seq_hook and H0 is not None:
            self.C.seq_hook(self, st, 'append', el, (s, t if xs is None else None, arr2), tl, H0)
        if self.C.append_hook:
            self.C.append_hook(self, st, el, s, xs, t if xs is None else None, arr2, s.off, n2)
        return Slice(arr2, s.off, n2, cap2, el)

    # ------------------------------------------------------------ contracts
    def apply_contract(self, st, con, args, ins, rett, g=None, recv_iface=False, free=()):
        self.used_contracts.add(con.name)
        st = st.copy()
        args = [self.esc(st, a) if isinstance(a, (Loc, LitSlice)) else a for a in args]
        for c in con.notes:
            self.assumed.add(c)
        pre = SView(self, st, con, args, free=free)
        for cl in con.requires_:
            if not self.has(cl.tag):
                continue
            gl = cl.f(pre)
            if cl.tag is None and self.C.no_pre(self):
                self.fact(gl, st)
                self.assumed.add('precondition of %s: %s' % (con.name, cl.name))
                continue
            self.oblige(st, gl, 'precondition of %s: %s' % (con.name, cl.name), cl.tag)
        post = st.copy()
        mods = con.mods(self) if g is None else (set(self.fn_mods(g.name)) | set(con.ghost_mods))
        for k in sorted(mods, key=str):
            post.comps[k] = self.fresh('c_' + str(k[1]), self.key_sort(k))
        if not con.pure:
            post.nxt = self.fresh('nxt', Int)
            self.fact(post.nxt >= st.nxt)
        # cells reachable through arguments or captured variables
        for a in list(args) + list(free):
            cs = set()
            self.clo_cells(post, a, cs)
            for c in cs:
                if c in post.cells and not isinstance(post.cells[c], Clo):
                    post.cells[c] = self.havoc_val(post, post.cells[c], self.cell_types[c], 'cell')
        if con.frame_fresh is not None:
            for k in sorted(mods, key=str):
                if self.frame_key(con, k):
                    self.fact(self.older_same(self.comp(post, k), self.comp(st, k), st.nxt), post)
        rts = g.results if g is not None else self.result_types(ins)
        rets, excs = [], []
        if con.raises_:
            ex = post.copy()
            raised = self.fresh('raised', Bool)
            ex.reach = self.named_reach(And(post.reach, raised))
            post.reach = self.named_reach(And(post.reach, Not(raised)))
            pv = self.fresh('panic', Int)
            self.fact(And(pv != 0, pv < ex.nxt, self.raise_types(con, pv)), ex)
            ev = SView(self, ex, con, args, pre=pre, free=free)
            ev.panic = pv
            for cl in con.exc_ensures_:
                if self.has(cl.tag):
                    self.fact(cl.f(ev), ex)
            excs.append((ex, pv, 'panic in ' + con.name))
        if con.result_fn is not None:
            rv = con.result_fn(SView(self, post, con, args, pre=pre, free=free))
            vals = rv if isinstance(rv, list) else [rv]
        else:
            vals = [self.fresh_val(post, t, 'r_' + con.name.split('.')[-1].strip(')')) for t in rts]
        v = SView(self, post, con, args, rets=vals, pre=pre, free=free)
        for cl in con.ensures_:
            if self.has(cl.tag):
                self.fact(cl.f(v), post)
        if not con.never_returns:
            rets.append((post, vals))
        return rets, excs

    def raise_types(self, con, pv):
        if '*' in con.raises_:
            return T
        return Or(*[self.typeOf(pv) == self.type_id(t) for t in con.raises_])

    def frame_key(self, con, k):
        if k[0] in ('gh', 'G'):
            return False
        ff = con.frame_fresh
        return not any(self.key_match(k, pat) for pat in ff)

    def key_match(self, k, pat):
        """pat: 'F.name', 'E.type', 'M.type' """
        if pat == '*':
            return True
        kd, _, nm = pat.partition('.')
        if kd == 'F':
            return k[0] == 'F' and k[1] == nm
        if kd == 'E':
            return k[0] == 'E' and k[1] == nm
        if kd == 'M':
            return k[0] in ('MD', 'MV') and k[1] == nm
        return False

    def named(self, x):
        """A constant equal to x (patterns and quantified bodies read better)."""
        if z3.is_const(x):
            return x
        nm = self.named_comps.get(x.get_id())
        if nm is None or nm[2] >= len(self.facts) or not self.facts[nm[2]].eq(nm[3]):
            c = nm[0] if nm is not None else self.fresh('nm', x.sort())
            d = c == x
            self.named_comps[x.get_id()] = nm = (c, x, len(self.facts), d)
            self.facts.append(d)
        return nm[0]

    def older_same(self, new, old, nxt):
        q = self.fresh('q', Int)
        new = self.named(new)
        return z3.ForAll([q], z3.Implies(z3.And(q < nxt, q > -NEST * nxt), z3.Select(new, q) == z3.Select(old, q)),
                         patterns=[z3.Select(new, q)])

    def result_types(self, ins):
        t = ins['t'] if 't' in ins else None
        if t is None:
            return []
        k = self.prog.types[t]
        if k['kind'] == 'tuple':
            return k['elems']
        return [t]

    # ------------------------------------------------------------ top level
    def verify_function(self, name):
        """Generate the obligations of one function against its contract."""
        if name in self.C.lemmas:
            return self.verify_lemma(name, self.C.lemmas[name])
        g = self.prog.fns[name]
        con = self.con_of(name)
        for f in self.C.dead_rules:
            self.dead_fns.update(f(self, con, g))
        st = State()
        st.env, st.comps, st.cells, st.locs = {}, {}, {}, {}
        st.nxt = z3.Const('nxt0', Int)
        st.defers = ()
        st.panic = None
        st.reach = T
        self.cell_types = getattr(self, 'cell_types', {})
        self.facts.append(st.nxt > 1000)
        self.cur_fn, self.cur_line = name, g.line
        fr = Frame(g, self, self.new_depth(), [])
        args, free = [], []
        for prm in g.params:
            if self.prog.kind(prm['t']) == 'ptr' and not self.prog.is_struct(self.prog.elem(prm['t'])):
                c = 'p_' + prm['n']
                t = self.prog.elem(prm['t'])
                self.cell_types[c] = t
                st.cells[c] = self.fresh_val(st, t, prm['n'])
                v = Cell(c, t)
            else:
                v = self.fresh_val(st, prm['t'], prm['n'])
                if self.prog.kind(prm['t']) == 'ptr' and prm['t'] == g.recv:
                    self.fact(v != 0)   # method receivers: checked at call sites as a nil dereference
            args.append(v)
            st.env[(fr.depth, prm['n'])] = v
        for fv in g.free:
            t = fv['t']
            if self.prog.kind(t) == 'ptr' and not self.prog.is_struct(self.prog.elem(t)):
                el = self.prog.elem(t)
                if self.prog.kind(el) == 'func':
                    # a recursive closure: calls through this variable use its contract
                    c = 'fv_' + fv['n']
                    self.cell_types[c] = el
                    v = Cell(c, el)
                    free.append(v)
                    st.cells[c] = None
                else:
                    c = 'fv_' + fv['n']
                    self.cell_types[c] = el
                    st.cells[c] = self.fresh_val(st, el, fv['n'])
                    v = Cell(c, el)
                    free.append(v)
            else:
                v = self.fresh_val(st, t, fv['n'])
                free.append(v)
            st.env[(fr.depth, fv['n'])] = v
        for v in free:
            if isinstance(v, Cell) and st.cells[v.id] is None:
                st.cells[v.id] = Clo(name, free)
        pre_st = st.copy()
        self.entry = pre_st
        pre = SView(self, pre_st, con, args, free=free)
        self.top = pre
        for cl in con.requires_ + con.axioms_:
            if self.has(cl.tag):
                self.fact(cl.f(pre))
        self.nfacts_pre = len(self.facts)
        self.stack.append(name)
        self.run_body(fr, st)
        self.stack.pop()
        self.cur_fn = name
        mods = set(self.fn_mods(name)) | set(con.ghost_mods)
        self.exits = []
        self.exit_reaches = [s.reach for s, _, _ in fr.rets] + [s.reach for s, _, _ in fr.excs]
        for s, vs, line in fr.rets:
            if z3.is_false(s.reach):
                continue
            self.cur_line = line
            vs = [self.esc(s, v) if isinstance(v, (Loc, LitSlice)) else v for v in vs]
            v = SView(self, s, con, args, rets=vs, pre=pre, free=free)
            self.exits.append((s, v))
            if con.ghost_exit is not None:
                con.ghost_exit(v)
            if con.never_returns:
                self.oblige(s, F, 'does not return', None, assume=False)
            self.check_frame(con, s, pre_st, mods)
            for cl in con.ensures_:
                if self.has(cl.tag) and not cl.trusted:
                    self.oblige(s, cl.f(v), 'postcondition: ' + cl.name, cl.tag, assume=False)
            if con.result_fn is not None:
                exp = con.result_fn(v)
                exp = exp if isinstance(exp, list) else [exp]
                for e, r in zip(exp, vs):
                    self.oblige(s, self.equal(s, e, r, None) if not isinstance(e, z3.ExprRef) else Eq(e, r), 'result', None, assume=False)
        for s, pv, why in fr.excs:
            if z3.is_false(s.reach):
                continue
            if con.raises_:
                self.oblige(s, self.raise_types(con, pv),
                            'panics only with %s (%s)' % ('/'.join(con.raises_), why), 'safe')
                self.check_frame(con, s, pre_st, mods)
                ev = SView(self, s, con, args, pre=pre, free=free)
                ev.panic = pv
                for cl in con.exc_ensures_:
                    if self.has(cl.tag):
                        self.oblige(s, cl.f(ev), 'exceptional postcondition: ' + cl.name, cl.tag, assume=False)
            else:
                self.oblige(s, F, 'does not panic (%s)' % why, 'safe')

    def verify_lemma(self, name, f):
        """Obligations about the program that belong to no single function (tables)."""
        from contracts import Contract
        st = State()
        st.env, st.comps, st.cells, st.locs = {}, {}, {}, {}
        st.nxt = z3.Const('nxt0', Int)
        st.defers = ()
        st.panic = None
        st.reach = T
        self.cell_types = {}
        self.facts.append(st.nxt > 1000)
        self.cur_fn, self.cur_line = name, 0
        self.top = SView(self, st, Contract(name), [])
        self.nfacts_pre = len(self.facts)
        self.exits, self.exit_reaches = [], []
        f(self, st)

    def check_frame(self, con, s, pre_st, mods):
        if con.frame_fresh is None:
            return
        for k in sorted(mods, key=str):
            if self.frame_key(con, k):
                a, b = self.comp(s, k), self.comp(pre_st, k)
                if a.eq(b):
                    continue
                q = self.fresh('sk', Int)
                self.oblige(s, z3.Implies(z3.And(q < pre_st.nxt, q > -NEST * pre_st.nxt), z3.Select(a, q) == z3.Select(b, q)),
                            'frame: %s of existing objects unchanged' % '.'.join(str(x) for x in k[:3]), 'frame', assume=False)


class SkipCand(Exception):
    pass


class SView:
    """What a contract clause sees: arguments, results and a heap state."""

    def __init__(self, eng, st, con, args, rets=None, pre=None, free=()):
        self.eng, self.st, self.con, self.args, self.rets = eng, st, con, args, rets
        self.pre = pre if pre is not None else self
        self.old = self.pre
        self.free = free
        self.panic = None

    @property
    def ret(self):
        return self.rets[0]

    def a(self, i):
        if isinstance(i, str):
            i = self.con.params.index(i)
        v = self.args[i]
        return v

    def cell(self, i):
        """Current value of the variable captured as free variable i."""
        v = self.free[i]
        return self.st.cells[v.id]

    def F(self, ref, stype, fname):
        return self.eng.field(self.st, ref, stype, fname)

    def N(self, ref, stype, fname):
        return self.eng.nested(self.st, ref, stype, fname)

    def gh(self, name):
        return self.eng.gh(self.st, name)

    def row(self, elem, arr):
        return self.eng.row(self.st, elem, arr)

    def H(self, key):
        return self.eng.comp(self.st, key)

    def dom(self, mt, m):
        return self.eng.map_dom(self.st, mt, m)

    def mget(self, mt, m, k):
        return self.eng.map_get(self.st, mt, m, k)

    @property
    def nxt(self):
        return self.st.nxt


class LoopView:
    def __init__(self, eng, fr, h, body, pre, head, ph, mods, cells):
        self.eng, self.fr, self.h, self.body = eng, fr, h, body
        self.pre, self.head, self.ph, self.mods, self.cells = pre, head, ph, mods, cells
        self.fn = fr.fn
        p = eng.prog
        self.vars = {'int': [], 'bool': [], 'slice': [], 'ref': [], 'str': [], 'func': []}
        for i in ph:
            k = (fr.depth, i['n'])
            self._classify(('env', k), i['t'], pre.env[k])
        for c in sorted(cells):
            if isinstance(pre.cells[c], (z3.ExprRef, Slice)):
                self._classify(('cell', c), eng.cell_types[c], pre.cells[c])

    def _classify(self, ref, t, v):
        p = self.eng.prog
        kd = p.kind(t)
        if kd == 'slice':
            self.vars['slice'].append((ref, t))
        elif kd == 'basic':
            s = self.eng.sort_of(t)
            if s == Bool:
                self.vars['bool'].append((ref, t))
            elif s == Str:
                self.vars['str'].append((ref, t))
            elif s == Int:
                self.vars['int'].append((ref, t))
        elif kd in ('ptr', 'iface', 'map'):
            self.vars['ref'].append((ref, t))
        elif kd == 'func':
            self.vars['func'].append((ref, t))

    def at(self, where, st):
        return PView(self, where, st)


class PView:
    """A point at which a loop invariant is evaluated."""

    def __init__(self, lv, where, st):
        self.lv, self.where, self.st = lv, where, st
        self.eng = lv.eng

    def get(self, ref):
        kind, k = ref
        if kind == 'env':
            v = self.st.env.get(k)
        else:
            v = self.st.cells.get(k)
        if v is None:
            raise SkipCand()
        if isinstance(v, (Loc, LitSlice)):
            v = self.eng.esc(self.st, v)
        return v

    def sv(self):
        top = self.eng.top
        return SView(self.eng, self.st, top.con, top.args, pre=top, free=top.free)

    def pre_sv(self):
        top = self.eng.top
        return SView(self.eng, self.lv.pre, top.con, top.args, pre=top, free=top.free)
