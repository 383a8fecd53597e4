#!/usr/bin/env python3
"""Makes planted bugs: seed.py FILE.py [id...]; FILE.py defines
seeds = {id: dict(property, needs, breaks, edits=[(file, old, new)], pkg, test)}.
Confirms in a scratch copy that the change builds, passes the stable tests, and that the
demonstration passes without it and fails with it; then writes /verif/seeded/<id>/."""
import sys, os, subprocess, shutil, json, importlib.util, concurrent.futures as cf
spec = importlib.util.spec_from_file_location('e', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
names = sys.argv[2:] or list(m.seeds)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = {**os.environ, 'PATH': '/opt/veriftools/go1.24.13/bin:' + os.environ['PATH'], 'GOTOOLCHAIN': 'local', 'GOPROXY': 'off', 'GOFLAGS': '-mod=readonly', 'CGO_ENABLED': '0', 'CI': 'true'}
DEMO = '''#!/bin/bash
# exits 0 if the behaviour is there, 1 if not; everything it writes is in a folder of its own
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
TMPDIR=$tmp go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%s
'''
def one(n):
    s = m.seeds[n]
    d = '/tmp/seed/' + n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/seed', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    o = '/tmp/seed/%s.out' % n
    shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    try:
        open(o + '/demo.sh', 'w').write(DEMO % (s['pkg'], s['pkg'])); os.chmod(o + '/demo.sh', 0o755)
        open(o + '/demo_test.go', 'w').write(s['test'].lstrip('\n'))
        r = subprocess.run([o + '/demo.sh'], cwd=d, capture_output=True, text=True)
        if r.returncode: return n, 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[:1500]
        for f, old, new in s['edits']:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(old) < 1: return n, 'EDIT FAILED ' + f + ': ' + old[:80]
            open(p, 'w').write(t.replace(old, new, 1))
        r = subprocess.run(['go', 'build', './...'], cwd=d, capture_output=True, text=True, env=ENV)
        if r.returncode: return n, 'BUILD ' + r.stderr[:800]
        r = subprocess.run([o + '/demo.sh'], cwd=d, capture_output=True, text=True)
        if r.returncode == 0: return n, 'demo passes with the change'
        why = (r.stdout + r.stderr)[:300]
        if 'build failed' in why or 'setup failed' in why: return n, 'demo does not build: ' + why
        t = '/tmp/seed/%s.tmp' % n; os.makedirs(t, exist_ok=True)
        r = subprocess.run('go test -json -vet=off -count=1 ./... > %s/t.json; python3 /opt/vp/results.py %s/o.json gojson:%s/t.json' % (t, t, t), shell=True, cwd=d, capture_output=True, text=True, env={**ENV, 'TMPDIR': t})
        passed = set(json.load(open(t + '/o.json'))['passed'])
        shutil.rmtree(t)
        lost = stable - passed
        if lost: return n, 'TESTS %d fail: %s' % (len(lost), sorted(lost)[:4])
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        open(o + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        shutil.rmtree('/verif/seeded/' + n, ignore_errors=True)
        shutil.copytree(o, '/verif/seeded/' + n)
        return n, 'ok  | ' + ' '.join(why.split())[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(o, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for n, r in ex.map(one, names): print(n, r, flush=True)
