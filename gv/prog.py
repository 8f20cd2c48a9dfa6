"""Loading of the exported SSA program, type helpers, CFG analysis, write sets."""
import json, os, subprocess, sys, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('GV_BUILD', '/tmp/gv-build')


class Unsupported(Exception):
    pass


def go_env():
    env = dict(os.environ)
    if 'GOFLAGS' in env:
        del env['GOFLAGS']
    gobin = '/opt/vp/env.sh'
    if os.path.exists(gobin):
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'],
                             stdout=subprocess.PIPE).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.split(b'=', 1)
                env[k.decode()] = v.decode()
    return env


def build_exporter():
    out = os.path.join(BUILD, 'ssaexport')
    src = os.path.join(VERIF, 'tools', 'ssaexport')
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(os.path.join(src, 'main.go')):
        return out
    env = go_env()
    env['GOFLAGS'] = '-mod=mod'
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise RuntimeError('building ssaexport failed:\n' + r.stdout.decode())
    os.replace(tmp, out)
    return out


def load(repo='/repo', cache=None):
    exe = build_exporter()
    r = subprocess.run([exe, repo], env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise RuntimeError('exporting SSA failed:\n' + r.stderr.decode())
    return Program(json.loads(r.stdout))


class Fn:
    def __init__(self, prog, name, j):
        self.prog = prog
        self.name = name
        self.params = j['params']
        self.free = j['free']
        self.results = j['results']
        self.resnames = j['resnames']
        self.recover = j.get('recover')
        self.blocks = j['blocks']
        self.file = j['file']
        self.line = j['line']
        self.parent = j.get('parent')
        self.recv = j.get('recv')
        self.sig = j['sig']
        self.defs = {}
        self.defblock = {}
        for b in self.blocks:
            for ins in b['ins']:
                if ins.get('n'):
                    self.defs[ins['n']] = ins
                    self.defblock[ins['n']] = b['i']
        self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        succ = [b['succs'] for b in self.blocks]
        # reverse postorder from entry (and from the recover block)
        seen, post = set(), []

        def dfs(r):
            st = [(r, iter(succ[r]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(succ[y])))
                        break
                else:
                    post.append(x)
                    st.pop()
        dfs(0)
        self.rpo = post[::-1]
        idx = {b: k for k, b in enumerate(self.rpo)}
        pred = {b: [p for p in self.blocks[b]['preds'] if p in idx] for b in self.rpo}
        dom = {b: set(self.rpo) for b in self.rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo:
                if b == 0:
                    continue
                ps = [dom[p] for p in pred[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.dom = dom
        self.loops = {}  # header -> set of blocks
        for b in self.rpo:
            for s in succ[b]:
                if s in dom[b]:  # back edge b->s
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(pred[x])
                elif idx[s] <= idx[b]:
                    raise Unsupported('irreducible control flow in ' + self.name)
        self.pred = pred


class Program:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.globals = d['globals']
        self.consts = d.get('consts', {})
        self.impl = d['impl']
        self.fns = {}
        for n, j in d['funcs'].items():
            try:
                self.fns[n] = Fn(self, n, j)
            except Unsupported as e:
                self.fns[n] = None
        self.node_types = sorted(t[1:] for t, e in self.impl.items()
                                 if e.get('node') and t.startswith('*parse.'))
        self._init_globals()
        self._mods = {}

    # ---- types
    def under(self, t):
        k = self.types[t]
        while k['kind'] == 'named':
            t = k['under']
            k = self.types[t]
        return k

    def kind(self, t):
        return self.under(t)['kind']

    def is_struct(self, t):
        return self.under(t)['kind'] == 'struct'

    def fields(self, t):
        return self.under(t)['fields']

    def elem(self, t):
        return self.under(t)['elem']

    # ---- globals initialised by constant package initialisation
    def _init_globals(self):
        self.gconst = {}
        stores = {}
        for n, f in self.fns.items():
            if f is None:
                continue
            for b in f.blocks:
                for ins in b['ins']:
                    if ins['op'] == 'Store' and ins['x']['k'] == 'g':
                        stores.setdefault(ins['x']['n'], set()).add(n)
        for n, f in self.fns.items():
            if f is None or not n.endswith('.init'):
                continue
            env = {}
            for b in f.blocks:
                for ins in b['ins']:
                    op = ins['op']
                    if op == 'MakeMap':
                        env[ins['n']] = ('map', {}, ins['t'])
                    elif op == 'MapUpdate':
                        m = env.get(ins['x'].get('n'))
                        if m and m[0] == 'map' and ins['y']['k'] == 'c' and ins['z']['k'] == 'c':
                            m[1][ins['y']['v']] = ins['z']['v']
                        elif m:
                            env[ins['x']['n']] = ('other',)
                    elif op == 'Alloc':
                        env[ins['n']] = ('array', {}) if self.kind(ins['elem']) == 'array' else ('alloc', ins['elem'])
                    elif op == 'UnOp' and ins['o'] == '*' and ins['x']['k'] == 'r' and env.get(ins['x']['n'], ('',))[0] == 'array':
                        env[ins['n']] = env[ins['x']['n']]
                    elif op == 'IndexAddr' and ins['x']['k'] == 'r' and ins['y']['k'] == 'c' and env.get(ins['x']['n'], ('',))[0] == 'array':
                        env[ins['n']] = ('lidx', env[ins['x']['n']][1], int(ins['y']['v']))
                    elif op == 'IndexAddr' and ins['x']['k'] == 'g' and ins['y']['k'] == 'c':
                        env[ins['n']] = ('gidx', ins['x']['n'], int(ins['y']['v']))
                    elif op == 'Store':
                        if ins['x']['k'] == 'g':
                            g = ins['x']['n']
                            v = ins['y']
                            if v['k'] == 'r' and v['n'] in env:
                                self.gconst[g] = env[v['n']]
                            elif v['k'] == 'c':
                                self.gconst[g] = ('const', v['v'])
                        elif ins['x']['k'] == 'r':
                            a = env.get(ins['x']['n'])
                            if a and a[0] == 'lidx' and ins['y']['k'] == 'c':
                                a[1][a[2]] = ins['y']['v']
                            elif a and a[0] == 'gidx' and ins['y']['k'] == 'c':
                                t = self.gconst.setdefault(a[1], ('array', {}))
                                if t[0] == 'array':
                                    t[1][a[2]] = ins['y']['v']
        for g, ws in stores.items():
            if any(not w.endswith('.init') for w in ws):
                self.gconst.pop(g, None)
        # a map global written to anywhere (through MapUpdate) would not be constant
        for n, f in self.fns.items():
            if f is None or n.endswith('.init'):
                continue
            for b in f.blocks:
                for ins in b['ins']:
                    if ins['op'] == 'IndexAddr' and ins['x']['k'] == 'g':
                        for b2 in f.blocks:
                            for i2 in b2['ins']:
                                if i2['op'] == 'Store' and i2['x'].get('n') == ins['n'] and i2['x']['k'] == 'r':
                                    self.gconst.pop(ins['x']['n'], None)
