"""mkseed.py ID: makes and confirms a planted change.  The change is made by EDITS in
/tmp/seeds/ID.py (name, property, needs, breaks, edits=[(file, old, new)], demo=go source)."""
import sys, os, subprocess, shutil, json, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Runs demo.go against the tree in the current directory; exit 0 if the property held.
. /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cp "$(dirname "$0")/demo.go" "$d/main.go"
printf 'module demo\\n\\ngo 1.16\\n\\nrequire github.com/cespare/goclj v0.0.0\\n\\nreplace github.com/cespare/goclj => %s\\n' "$PWD" > "$d/go.mod"
export GOFLAGS=-mod=mod
%sexport HOME="$d" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
( cd "$d" && go build -o demo . ) || exit 3
cd "$d" && timeout 120 ./demo
'''
def sh(c, cwd, **k):
    return subprocess.run(['bash', '-c', c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def one(f):
    g = {}
    exec(open(f).read(), g)
    sid = os.path.basename(f)[:-3]
    d = os.path.join(H, 'seeded', sid)
    tmp = tempfile.mkdtemp(prefix='seed.')
    try:
        r = os.path.join(tmp, 'repo')
        sh('cp -a /repo ' + r, '/')
        for fn, old, new in g['edits']:
            p = os.path.join(r, fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, 'edit does not match once', fn, t.count(old)); return
            open(p, 'w').write(t.replace(old, new))
        # changed lines must be lines of the base commit
        diff = sh('git diff', r).stdout
        base = {}
        for fn, _, _ in g['edits']:
            base[fn] = set(sh('git show ed98fdc:' + fn, r).stdout.splitlines())
        cur, ok = None, False
        for l in diff.splitlines():
            if l.startswith('+++ b/'):
                cur = l[6:]
            elif l.startswith('-') and not l.startswith('---'):
                if l[1:] in base[cur]:
                    ok = True
                else:
                    print(sid, 'note: removes a line that is not in base:', l)
        if not ok and '-' in diff:
            print(sid, 'changes no original line (pure insertion?)')
        b = sh('. /opt/vp/env.sh; go vet ./... && go build ./... && go test ./... 2>&1 | tail -20', r)
        if b.returncode or 'FAIL' in b.stdout:
            print(sid, 'tests fail with the change:', b.stdout[-800:]); return
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.go'), 'w').write(g['demo'])
        cl = ''
        if g.get('cljfmt'):
            cl = '. /opt/vp/env.sh; GOFLAGS= go build -o "$d/cljfmt" ./cljfmt || exit 3\n'
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % ('%s', cl) if False else DEMO_SH.replace('%sexport', cl + 'export'))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, '/repo')
        c = sh('bash %s/demo.sh' % d, r)
        st = sh('git apply --check %s/patch.diff' % d, '/repo')
        good = a.returncode == 0 and c.returncode not in (0, 3) and st.returncode == 0
        print(sid, 'OK' if good else 'BAD', a.returncode, c.returncode, c.stdout[-300:] if good else (a.stdout[-500:], c.stdout[-500:]))
        if not good:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
for f in sys.argv[1:]:
    one(f)
