"""Contracts of the command line tool: which files are read and written (C14), flags (C15)."""
import z3
from terms import *
from contracts import *
from prog import Unsupported
from engine import Slice, StructV, SView, Clo

contents = fn('contents', Int, Str)         # everything a reader delivers
file_name = fn('file_name', Int, Str)       # the name a file was opened under
mode_of = fn('mode_of', Int, Int)
perm_of = fn('perm_bits', Int, Int)
bytes_of = fn('bytes_of', Int, Str)         # the text in an array of bytes
env_set = fn('env_set', Str, Bool)
env_val = fn('env_value', Str, Str)
file_perm = fn('file_perm', Int, Int)
join_ = fn('path_join', Str, Str, Str)
ext_ = fn('path_ext', Str, Str)
name_of = fn('info_name', Int, Str)
is_dir = fn('info_isdir', Int, Bool)
arg_at = fn('arg_at', Int, Str)
tree_of = fn('tree_of', Int, Int)

GS = dict(failed=Bool, nwrite=Int, buf=z3.ArraySort(Int, Str), parsed=Int, out=Str, stdout=Str, nlist=Int, listed=Str,
          done=z3.ArraySort(Str, Bool), nproc=Int, proc=Str, proc_err=Int, walk_err=Int, walked=Str, cflag=Int, en_m=Int, dis_m=Int, conf_from=Int, conf_err=Int, open_path=Str, opened=Int, flags_parsed=Bool)


def g(v, n):
    return v.gh(n)


def cli_module(R):
    for n, s in GS.items():
        R.ghosts[n] = s
    E = R.externs
    prog = R.prog

    def ext(*names, mods=()):
        def d(f):
            for n in names:
                E[n] = Ext(f, {('gh', m) for m in mods})
            return f
        return d

    def may_fail(eng, st, e):
        eng.set_gh(st, 'failed', Or(eng.gh(st, 'failed'), e != 0))

    def top_is(eng, *names):
        return eng.top.con.name in names

    PF = '(*cljfmt.config).processFile'
    R.opaque_rules.append(lambda eng, name, g: ('C14' in eng.tags and name == '(*cljfmt.config).parseDotConfig') or (
        'C15' in eng.tags and name in (PF, '(*cljfmt.config).walkDir')))

    @ext('os.Open', mods=('failed', 'opened', 'open_path'))
    def _(eng, fr, st, a, ins):
        e = err_or_nil(eng, st)
        f = new_obj(eng, st, '*os.File')
        r = eng.fresh('file', Int)
        eng.fact(And(z3.Implies(e == 0, r == f), z3.Implies(e != 0, r == 0), file_name(f) == a[0]), st)
        may_fail(eng, st, e)
        eng.set_gh(st, 'opened', r)
        eng.set_gh(st, 'open_path', a[0])
        return [r, e]

    @ext('(*os.File).Close', '(os.File).Close')
    def _(eng, fr, st, a, ins):
        return err_or_nil(eng, st)

    @ext('(*os.File).Stat', mods=('failed',))
    def _(eng, fr, st, a, ins):
        e = err_or_nil(eng, st)
        i = new_obj(eng, st, '*os.fileStat')
        eng.fact(perm_of(mode_of(i)) == file_perm(a[0]), st)
        may_fail(eng, st, e)
        return [z3.If(e == 0, i, I(0)), e]

    @ext('os.Stat', mods=('failed',))
    def _(eng, fr, st, a, ins):
        e = err_or_nil(eng, st)
        i = new_obj(eng, st, '*os.fileStat')
        eng.fact(is_dir(i) == is_dir_name(a[0]), st)
        may_fail(eng, st, e)
        return [z3.If(e == 0, i, I(0)), e]

    @ext('os.IsNotExist')
    def _(eng, fr, st, a, ins):
        return eng.fresh('notexist', Bool)

    for nm, f in (('Mode', mode_of), ('Name', name_of), ('IsDir', is_dir)):
        for it in ('fs.FileInfo', 'io/fs.FileInfo', 'os.FileInfo'):
            @ext('iface:%s.%s' % (it, nm))
            def _(eng, fr, st, a, ins, f=f):
                return f(a[0])

    @ext('(fs.FileMode).Perm', '(io/fs.FileMode).Perm', '(os.FileMode).Perm')
    def _(eng, fr, st, a, ins):
        return perm_of(a[0])

    @ext('(*bytes.Buffer).Reset', mods=('buf',))
    def _(eng, fr, st, a, ins):
        eng.set_gh(st, 'buf', z3.Store(eng.gh(st, 'buf'), a[0], S.lit('')))
        return []

    @ext('(*bytes.Buffer).Bytes')
    def _(eng, fr, st, a, ins):
        arr = eng.alloc_ref(st)
        t = z3.Select(eng.gh(st, 'buf'), a[0])
        eng.fact(bytes_of(arr) == t, st)
        n = S.len(t)
        return Slice(arr, I(0), n, n, 'byte')

    @ext('(*bytes.Buffer).String')
    def _(eng, fr, st, a, ins):
        return z3.Select(eng.gh(st, 'buf'), a[0])

    @ext('(*bytes.Buffer).Len')
    def _(eng, fr, st, a, ins):
        return S.len(z3.Select(eng.gh(st, 'buf'), a[0]))

    @ext('bytes.NewReader')
    def _(eng, fr, st, a, ins):
        r = new_obj(eng, st, '*bytes.Reader')
        eng.fact(contents(r) == bytes_of(a[0].arr), st)
        return r

    @ext('bytes.Equal')
    def _(eng, fr, st, a, ins):
        return bytes_of(a[0].arr) == bytes_of(a[1].arr)

    @ext('io.Copy', mods=('buf', 'failed', 'stdout'))
    def _(eng, fr, st, a, ins):
        """A copy that reports no error has taken all of the source."""
        dst, src = a
        e = err_or_nil(eng, st)
        b = eng.gh(st, 'buf')
        tb = eng.type_id('*bytes.Buffer')
        text = z3.If(eng.typeOf(src) == tb, z3.Select(b, src), contents(src))
        part = eng.fresh('copied', Str)
        got = z3.If(e == 0, text, part)
        to_buf = eng.typeOf(dst) == tb
        b1 = z3.If(to_buf, z3.Store(b, dst, S.cat(z3.Select(b, dst), got)), b)
        b2 = eng.fresh('rest', Str)
        eng.set_gh(st, 'buf', z3.If(eng.typeOf(src) == tb, z3.Store(b1, src, b2), b1))
        eng.set_gh(st, 'stdout', z3.If(to_buf, eng.gh(st, 'stdout'), got))
        if top_is(eng, PF):
            v = eng.top
            eng.oblige(st, Or(to_buf, And(dst == stdout(eng, st), Not(conf(v, 'list')), Not(conf(v, 'write')), got_out(eng, st, text))),
                       'only the formatted text goes to standard output, and only without -l and -w', 'C14')
        may_fail(eng, st, e)
        return [eng.fresh('n', Int), e]

    def stdout(eng, st):
        return eng.comp(st, ('G', 'os.Stdout', ''))

    def conf(v, f):
        return v.F(v.a('c'), 'cljfmt.config', f)

    def got_out(eng, st, text):
        return And(eng.gh(st, 'parsed') != 0, text == eng.gh(st, 'out'), Implies(Not(eng.top.gh('failed')), Not(eng.gh(st, 'failed'))))

    @ext('ioutil.WriteFile', 'io/ioutil.WriteFile', 'os.WriteFile', mods=('failed', 'nwrite'))
    def _(eng, fr, st, a, ins):
        e = err_or_nil(eng, st)
        v = eng.top
        text = bytes_of(a[1].arr)
        if top_is(eng, PF):
            f = eng.gh(st, 'opened')
            eng.oblige(st, conf(v, 'write'), 'a file is written only with -w', 'C14')
            eng.oblige(st, And(v.a('in') == 0, a[0] == v.a('filename')), 'the file written is the file given', 'C14')
            eng.oblige(st, got_out(eng, st, text), 'exactly the formatted text is written, after reading, parsing and formatting succeeded', 'C14')
            eng.oblige(st, text != contents(f), 'a file is written only when its text changes', 'C14')
            eng.oblige(st, a[2] == file_perm(f), 'the permission bits are kept', 'C14')
        else:
            eng.oblige(st, F, 'no other function writes files', 'C14')
        may_fail(eng, st, e)
        eng.set_gh(st, 'nwrite', eng.gh(st, 'nwrite') + z3.If(e == 0, I(1), I(0)))
        return e

    @ext('fmt.Println', mods=('nlist', 'listed'))
    def _(eng, fr, st, a, ins):
        vs = slice_vals(eng, st, a[0])
        if top_is(eng, PF):
            v = eng.top
            ok = F
            if vs is not None and len(vs) == 1:
                x = vs[0]
                ref = eng.esc(st, x)
                ok = And(conf(v, 'list'), eng.typeOf(ref) == eng.type_id('string'), eng.unbox(st, ref, 'string') == v.a('filename'),
                         eng.gh(st, 'out') != src_text(v, eng, st), got_out(eng, st, eng.gh(st, 'out')))
            eng.oblige(st, ok, 'only the name of a file whose formatting differs is listed, and only with -l', 'C14')
        eng.set_gh(st, 'nlist', eng.gh(st, 'nlist') + 1)
        return [eng.fresh('n', Int), err_or_nil(eng, st)]

    def src_text(v, eng, st):
        return contents(z3.If(v.a('in') == 0, eng.gh(st, 'opened'), v.a('in')))

    # ---- parsing and printing, seen from the tool
    c = R.contracts['parse.Reader']     # made by conf_module for C14 and C15
    c.ghost_mods |= {('gh', 'failed'), ('gh', 'parsed')}
    c.ens('C14', 'parsing may fail', lambda v: v.gh('failed') == Or(v.pre.gh('failed'), v.rets[1] != 0), trusted=True)
    c.ens('C14', 'names the tree of the text', lambda v: And(v.gh('parsed') == v.rets[0], (v.rets[0] != 0) == (v.rets[1] == 0),
                                                         v.rets[0] >= 0, v.rets[0] < v.nxt), trusted=True)
    nonsem = int(prog.consts.get('parse.IncludeNonSemantic', 1))

    def whole(v):
        if not top_is(v.eng, PF):
            return T
        t = v.eng.top
        return And(contents(v.a('r')) == src_text(t, v.eng, v.st), v.a('opts') == nonsem, v.a('filename') == t.a('filename'))
    c.req('C14', 'the whole text of the file is parsed, with comments and newlines', whole)

    c = R.fn('format.NewPrinter', 'w').tags_only('C14')
    c.ens('C14', 'the printer writes to the destination given', lambda v: And(v.ret != 0, v.ret >= v.pre.nxt, v.ret < v.nxt,
                                                                           printer_to(v.ret) == v.a('w')), trusted=True)
    c.frame()
    c = R.fn('(*format.Printer).PrintTree', 'p', 't').tags_only('C14')
    c.ghost_mods = {('gh', 'failed'), ('gh', 'out'), ('gh', 'buf')}
    c.mods_override = set()
    dst = lambda v: printer_to(v.a('p'))
    c.ens('C14', 'the formatted text is appended to the destination', lambda v: And(
        v.gh('failed') == Or(v.pre.gh('failed'), v.ret != 0),
        z3.Implies(v.ret == 0, v.gh('buf') == z3.Store(v.pre.gh('buf'), dst(v), S.cat(z3.Select(v.pre.gh('buf'), dst(v)), v.gh('out'))))), trusted=True)

    def set_up(v):
        t = v.eng.top
        if not top_is(v.eng, PF):
            return F
        p = v.a('p')
        pf = lambda f: v.F(p, 'format.Printer', f)
        return And(v.a('t') == v.gh('parsed'), v.gh('parsed') != 0, pf('IndentChar') == 32, pf('IndentOverrides') == conf(t, 'indentOverrides'),
                   pf('ThreadFirstStyleOverrides') == conf(t, 'threadFirstOverrides'), pf('Transforms') == conf(t, 'transforms'))
    c.req('C14', 'the tree of the file is printed with the settings given', set_up)

    c = R.fn(PF, 'c', 'filename', 'in').tags_only('C14')
    c.req('C14', 'there is a configuration', lambda v: v.a('c') != 0)
    c.req('C14', 'standard input is not written to', lambda v: Or(v.a('in') == 0, And(Not(conf(v, 'write')), Not(conf(v, 'list')))))
    c.req('C14', 'the input is not one of the buffers', lambda v: v.eng.typeOf(v.a('in')) != v.eng.type_id('*bytes.Buffer'))
    c.ghost_mods = {('gh', n) for n in ('failed', 'nproc', 'proc', 'done')}

    def differs(v):
        return v.gh('out') != src_text(v, v.eng, v.st)
    c.ens('C14', 'every failure is reported, and nothing else', lambda v: Implies(Not(v.pre.gh('failed')), (v.ret != 0) == v.gh('failed')))
    c.ens('C14', 'on an error no file is written', lambda v: Implies(v.ret != 0, v.gh('nwrite') == v.pre.gh('nwrite')))
    c.ens('C14', 'with -w a file whose formatting differs is written once, no other is', lambda v: Implies(
        v.ret == 0, v.gh('nwrite') == v.pre.gh('nwrite') + z3.If(And(conf(v, 'write'), differs(v)), I(1), I(0))))
    c.ens('C14', 'with -l a file whose formatting differs is listed once, no other is', lambda v: Implies(
        v.ret == 0, v.gh('nlist') == v.pre.gh('nlist') + z3.If(And(conf(v, 'list'), differs(v)), I(1), I(0))))
    c.ens('C14', 'with neither the formatted text goes to standard output', lambda v: Implies(
        And(v.ret == 0, Not(conf(v, 'list')), Not(conf(v, 'write'))), v.gh('stdout') == v.gh('out')))
    c.frame()

    def processed(v):
        eng, st = v.eng, v.st
        eng.set_gh(st, 'nproc', v.pre.gh('nproc') + 1)
        eng.set_gh(st, 'proc', v.a('filename'))
        eng.set_gh(st, 'proc_err', v.ret)
        eng.set_gh(st, 'done', z3.Store(v.pre.gh('done'), v.a('filename'), v.ret == 0))
    c.ghost_mods |= {('gh', 'proc_err')}
    c.ghost_exit = processed
    c.ens('C14', 'counts the files processed', lambda v: And(
        v.gh('nproc') == v.pre.gh('nproc') + 1, v.gh('proc') == v.a('filename'), v.gh('proc_err') == v.ret,
        v.gh('done') == z3.Store(v.pre.gh('done'), v.a('filename'), v.ret == 0)))
    c.req('C14', 'directories are walked, not read', lambda v: Or(not_main(v), v.a('in') != 0, Not(is_dir_name(v.a('filename')))))

    # ---- walking directories
    MSET = 'map[string]struct{}'
    WK = '(*cljfmt.config).walkDir$1'
    c = R.fn(WK, 'path', 'f', 'err').tags_only('C14')

    def wanted(v):
        n = name_of(v.a('f'))
        m = v.pre.F(v.pre.cell(0), 'cljfmt.config', 'extensions')
        return And(v.a('err') == 0, Not(is_dir(v.a('f'))), Not(S.prefix(n, S.lit('.'))), m != 0, z3.Select(v.pre.dom(MSET, m), ext_(n)))
    c.req('C14', 'there is a configuration', lambda v: v.cell(0) != 0)
    c.req('C14', 'there is a file or an error', lambda v: Implies(v.a('err') == 0, v.a('f') != 0))
    c.ens('C14', 'exactly the non-hidden files with a configured extension are processed', lambda v: And(
        v.gh('nproc') == v.pre.gh('nproc') + z3.If(wanted(v), I(1), I(0)), Implies(wanted(v), v.gh('proc') == v.a('path'))))
    c.ens('C14', 'a failure ends the walk', lambda v: (v.ret != 0) == Or(v.a('err') != 0, And(wanted(v), v.gh('proc_err') != 0)))

    c = R.fn('(*cljfmt.config).walkDir', 'c', 'path').tags_only('C14')
    c.req('C14', 'there is a configuration', lambda v: v.a('c') != 0)
    c.req('C14', 'only directories are walked', lambda v: Or(not_main(v), is_dir_name(v.a('path'))))
    c.ghost_mods = {('gh', 'done')}
    c.ens('C14', 'returns only if the whole directory was walked without a failure', lambda v: And(v.gh('walk_err') == 0, v.gh('walked') == v.a('path')))

    def walked(v):
        v.eng.set_gh(v.st, 'done', z3.Store(v.pre.gh('done'), v.a('path'), T))
    c.ghost_exit = walked
    c.ens('C14', 'counts the directory', lambda v: v.gh('done') == z3.Store(v.pre.gh('done'), v.a('path'), T))

    def not_main(v):
        return z3.BoolVal(v.eng.top.con.name != 'cljfmt.main')

    allg = tuple(n for n in GS if n not in ('cflag', 'en_m', 'dis_m', 'flags_parsed', 'conf_from', 'conf_err', 'done'))

    @ext('path/filepath.Walk', 'filepath.Walk', mods=allg)
    def _(eng, fr, st, a, ins):
        e = err_or_nil(eng, st)
        ok = isinstance(a[1], Clo) and a[1].fn == WK if hasattr(a[1], 'fn') else False
        if top_is(eng, '(*cljfmt.config).walkDir'):
            v = eng.top
            eng.oblige(st, a[0] == v.a('path'), 'the directory given is walked', 'C14')
            eng.oblige(st, z3.BoolVal(bool(ok)), 'every file is looked at', 'C14')
        for n in allg:
            if n not in ('walk_err', 'walked'):
                eng.set_gh(st, n, eng.fresh(n, GS[n]))
        eng.set_gh(st, 'walk_err', e)
        eng.set_gh(st, 'walked', a[0])
        return e

    @ext('path/filepath.Ext', 'filepath.Ext')
    def _(eng, fr, st, a, ins):
        return ext_(a[0])

    @ext('path/filepath.Join', 'filepath.Join')
    def _(eng, fr, st, a, ins):
        vs = slice_vals(eng, st, a[0])
        if not vs:
            raise Unsupported('filepath.Join of a list')
        r = vs[0]
        for x in vs[1:]:
            r = join_(r, x)
        return r

    @ext('os.LookupEnv')
    def _(eng, fr, st, a, ins):
        return [z3.If(env_set(a[0]), env_val(a[0]), S.lit('')), env_set(a[0])]

    @ext('os.Getenv')
    def _(eng, fr, st, a, ins):
        return z3.If(env_set(a[0]), env_val(a[0]), S.lit(''))

    # ---- flags
    def default_path():
        c_, h_ = S.lit('CLJFMT_CONFIG_PATH'), S.lit('HOME')
        return z3.If(env_set(c_), env_val(c_), z3.If(env_set(h_), join_(env_val(h_), S.lit('.cljfmt')), S.lit('')))
    c = R.fn('cljfmt.defaultConfigPath').tags_only('C14', 'C15')
    c.ens('C15', 'the path is that of the environment', lambda v: v.ret == default_path())
    c.frame()
    c = R.fn('(*cljfmt.pathFlag).Set', 'pf', 'v').tags_only('C15')
    c.req('C15', 'there is a flag', lambda v: v.a('pf') != 0)
    c.ens('C15', 'the path given is used', lambda v: And(v.ret == 0, v.F(v.a('pf'), 'cljfmt.pathFlag', 'p') == v.a('v'), v.F(v.a('pf'), 'cljfmt.pathFlag', 'set')))

    PDC = '(*cljfmt.config).parseDotConfig'
    c = R.contracts[PDC]
    c.ghost_mods |= {('gh', 'conf_from'), ('gh', 'conf_err')}

    def loaded(v):
        v.eng.set_gh(v.st, 'conf_from', v.a('r'))
        v.eng.set_gh(v.st, 'conf_err', v.ret)
    c.ghost_exit = loaded
    c.ens('C15', 'notes the file read', lambda v: And(v.gh('conf_from') == v.a('r'), v.gh('conf_err') == v.ret))
    c.req('C15', 'the file opened is read', lambda v: T if v.eng.top.con.name != PDC + 'File' else And(
        v.a('r') == v.gh('opened'), v.gh('open_path') == v.eng.top.a('pf').f['p']))

    c = R.fn(PDC + 'File', 'c', 'pf').tags_only('C14', 'C15')
    c.req(None, 'there is a configuration', lambda v: v.a('c') != 0)
    c.ghost_mods = {('gh', 'conf_from'), ('gh', 'conf_err'), ('gh', 'opened'), ('gh', 'open_path')}
    c.ens('C15', 'the file at the path is read, and a malformed one ends the program', lambda v: Implies(
        v.a('pf').f['p'] != S.lit(''), And(v.gh('open_path') == v.a('pf').f['p'], Implies(v.gh('opened') != 0, And(
            v.gh('conf_from') == v.gh('opened'), v.gh('conf_err') == 0)))))
    c.ens('C15', 'no path, no configuration', lambda v: Implies(v.a('pf').f['p'] == S.lit(''), And(
        v.gh('open_path') == v.pre.gh('open_path'), *[v.F(v.a('c'), 'cljfmt.config', f) == v.pre.F(v.a('c'), 'cljfmt.config', f)
                                                     for f in ('extensions', 'indentOverrides', 'threadFirstOverrides')])))

    def defaults(v, m):
        """README: the default extensions"""
        x = z3.Const('s!d', Str)
        d = v.eng.named(v.dom(MSET, m))
        return And(m != 0, z3.ForAll([x], z3.Select(d, x) == Or(*[x == S.lit(e) for e in ('.clj', '.cljs', '.cljc', '.edn')]), patterns=[z3.Select(d, x)]))

    def flags_done(v):
        if v.eng.top.con.name != 'cljfmt.main':
            return T
        pf = lambda f: v.F(v.gh('cflag'), 'cljfmt.pathFlag', f)
        return And(v.gh('flags_parsed'), v.a('pf').f['p'] == pf('p'), v.a('pf').f['set'] == pf('set'),
                   defaults(v, v.F(v.a('c'), 'cljfmt.config', 'extensions')), v.gh('en_m') == v.F(v.a('c'), 'cljfmt.config', 'transforms'), v.gh('dis_m') == v.gh('en_m'))
    c.req('C15', 'the configuration is read after the flags, at the path they give', flags_done)

    @ext('flag.Var', mods=('cflag', 'en_m', 'dis_m'))
    def _(eng, fr, st, a, ins):
        v, name = a[0], S.value(a[1])
        if name is None:
            raise Unsupported('a flag without a constant name')
        name = name.decode()
        if name == 'c':
            eng.oblige(st, And(z3.BoolVal(ins['args'][0]['t'] is not None), eng.field(st, v, 'cljfmt.pathFlag', 'p') == default_path()),
                       '-c defaults to the path of the environment', 'C15')
            eng.set_gh(st, 'cflag', v)
        elif name in ('enable-transform', 'disable-transform'):
            tf = eng.unbox(st, v, 'cljfmt.transformFlag')
            eng.oblige(st, tf.f['b'] == z3.BoolVal(name[0] == 'e'), '-%s turns a transform %s' % (name, 'on' if name[0] == 'e' else 'off'), 'C15')
            eng.set_gh(st, 'en_m' if name[0] == 'e' else 'dis_m', tf.f['m'])
        else:
            eng.oblige(st, F, 'flag -%s is not documented' % name, 'C15')
        return []

    @ext('flag.BoolVar')
    def _(eng, fr, st, a, ins):
        name = S.value(a[1])
        f = {b'l': 'list', b'w': 'write'}.get(name)
        got = getattr(a[0], 'name', None) or getattr(a[0], 'field', None) or (a[0].path[-1] if getattr(a[0], 'path', None) else None)
        eng.oblige(st, z3.BoolVal(f is not None and got == f), '-%s sets its own setting' % (name or b'?').decode(), 'C15')
        return []

    FLAGGED = {('F', 'p', 'string', ''), ('F', 'set', 'bool', ''), ('F', 'list', 'bool', ''), ('F', 'write', 'bool', ''),
               ('MD', 'map[format.Transform]bool'), ('MV', 'map[format.Transform]bool', ''), ('gh', 'flags_parsed')}

    def parse_flags(eng, fr, st, a, ins):
        for k in FLAGGED:
            if k[0] != 'gh':
                st.comps[k] = eng.fresh('flags', eng.key_sort(k))
        eng.set_gh(st, 'flags_parsed', T)
        return []
    E['flag.Parse'] = Ext(parse_flags, FLAGGED)
    nargs = z3.Int('number_of_args')

    @ext('flag.NArg')
    def _(eng, fr, st, a, ins):
        eng.fact(nargs >= 0)
        return nargs

    @ext('flag.Args', mods=())
    def _(eng, fr, st, a, ins):
        eng.fact(nargs >= 0)
        r = eng.alloc_ref(st)
        row = fn('args_row', Int, z3.ArraySort(Int, Str))(I(0))
        st.comps[('E', 'string', '')] = z3.Store(eng.comp(st, ('E', 'string', '')), r, row)
        return Slice(r, I(0), nargs, nargs, 'string')
    E['flag.Args'].mods = {('E', 'string', '')}

    for nm in ('log.SetFlags', 'log.SetPrefix', 'flag.PrintDefaults', 'fmt.Fprintf', 'fmt.Fprintln'):
        @ext(nm)
        def _(eng, fr, st, a, ins, nm=nm):
            return [eng.fresh('n', Int), err_or_nil(eng, st)] if nm.startswith('fmt.') else []

    c = R.fn('cljfmt.main').tags_only('C14', 'C15')
    c.raises('*')
    row = lambda: fn('args_row', Int, z3.ArraySort(Int, Str))(I(0))

    def args_done(v, upto):
        j = z3.Int('j!a')
        r = row()
        d = v.eng.named(v.gh('done'))
        return z3.ForAll([j], Implies(And(0 <= j, j < upto), z3.Select(d, z3.Select(r, j))), patterns=[z3.Select(r, j)])
    c.ens('C14', 'without arguments standard input is formatted', lambda v: Implies(nargs == 0, And(
        v.gh('nproc') == v.pre.gh('nproc') + 1, v.gh('proc') == S.lit('<stdin>'), v.gh('proc_err') == 0)))
    c.ens('C14', 'every argument is formatted, or the failure is reported', lambda v: Implies(nargs > 0, args_done(v, nargs)))

    def main_cands(lv):
        if lv.eng.top.con.name != 'cljfmt.main':
            return []
        return [('arguments seen are done', lambda v, r=r: args_done(v.sv(), v.get(r) + 1)) for r, t in lv.vars['int']]
    c.cand(main_cands)


is_dir_name = fn('is_directory', Str, Bool)
printer_to = fn('printer_to', Int, Int)
