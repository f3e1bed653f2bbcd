#!/usr/bin/env python3
"""plant.py SPEC.py: makes and confirms planted bugs in scratch copies and keeps them in seeded/<id>.
SPEC.py calls bug(id, prop, edits=[(file, old, new)...], pkg, test, needs, breaks)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 if the demonstration passes on the code in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
[ -n "$DEMO_GOWORK" ] && export GOWORK="$DEMO_GOWORK"
t="$(mktemp -d)" || exit 1
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t"
pkg="$(sed -n 's|^// pkg: ||p' "$here/demo_test.go" | head -1)"
echo "{\\"Replace\\": {\\"$PWD/$pkg/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' "./$pkg"
'''
def sh(cmd, cwd, env=None, t=300):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
def copy():
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    open(d + '/go.work', 'w').write('go 1.22.2\n\nuse (\n\t./repo\n\t./repo/bencode\n)\n')
    return d
def bug(id, prop, edits, pkg, test, needs, breaks):
    only = sys.argv[2:]
    if only and id not in only: return
    d = copy(); r = d + '/repo'
    try:
        sh('git checkout -- . && git clean -fdq', r)
        out = os.path.join(HERE, 'seeded', id)
        stage = d + '/seed'; os.mkdir(stage)
        open(stage + '/demo_test.go', 'w').write('// pkg: %s\n' % pkg + test.lstrip('\n'))
        open(stage + '/demo.sh', 'w').write(DEMO)
        env = {'DEMO_GOWORK': d + '/go.work'}
        rc, o = sh('bash %s/demo.sh' % stage, r, env)
        if rc != 0: print(id, 'DEMO FAILS UNCHANGED', o[-1500:]); return
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: print(id, 'edit matches', s.count(old), 'times:', old[:60]); return
            open(p, 'w').write(s.replace(old, new))
        rc, o = sh('. /opt/vp/env.sh; export GOWORK=%s/go.work; go build ./... ./bencode/... && go vet ./... >/dev/null; go build ./... ./bencode/...' % d, r)
        if rc != 0: print(id, 'DOES NOT BUILD', o[-1500:]); return
        s = open('/opt/vp/test.sh').read().replace('. /opt/vp/env.sh', '. /opt/vp/env.sh; export GOWORK=%s/go.work' % d).replace('cd /repo', 'cd ' + r)
        open(d + '/test.sh', 'w').write(s)
        sh('bash %s/test.sh %s/out.json' % (d, d), r)
        res = json.load(open(d + '/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        miss = set(base['stable']) - set(res['passed'])
        if miss: print(id, 'TESTS FAIL', sorted(miss)[:5]); return
        rc, o = sh('bash %s/demo.sh' % stage, r, env)
        if rc == 0: print(id, 'DEMO PASSES WITH THE BUG'); return
        rc, diff = sh('git diff', r)
        os.makedirs(out, exist_ok=True)
        for f in ('demo_test.go', 'demo.sh'): shutil.copy(stage + '/' + f, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + '/meta.json', 'w'), indent=1)
        print(id, 'KEPT', o.strip().split('\n')[0][:200])
    finally:
        shutil.rmtree(d)
exec(open(sys.argv[1]).read())
