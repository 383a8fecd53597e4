#!/usr/bin/env python3
"""Tries out edits of /repo in scratch copies.
usage: try.py FILE.py [name...]   FILE.py defines edits = {name: (kind, property, [(file, old, new), ...])}
kind: 'bug' (a check has to report it) or 'same' (all checks have to stay quiet)"""
import time, sys, os, subprocess, shutil, json, importlib.util, concurrent.futures as cf
spec = importlib.util.spec_from_file_location('e', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
names = sys.argv[2:] or list(m.edits)
BIN = os.environ.get('ANALYZER', os.environ.get('A','/verif/bin/analyzer'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if os.environ.get('TESTS') else None
def one(n):
    kind, prop, eds = m.edits[n]
    d = '/tmp/m/' + n
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'), symlinks=True)
    try:
        for f, old, new in eds:
            p = os.path.join(d, f)
            s = open(p).read() if os.path.exists(p) else ''
            if old == '': s += new
            else:
                if s.count(old) < 1: return n, 'EDIT FAILED ' + f + ': ' + old[:60]
                s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        r = subprocess.run(['go', 'build', './...'], cwd=d, capture_output=True, text=True, env={**os.environ, 'GOFLAGS': '-mod=mod', 'GOPROXY': 'off'})
        if r.returncode: return n, 'BUILD ' + r.stderr[:500]
        if kind == 'bug' and os.environ.get('ONLY'):
            t0 = time.time()
            r = subprocess.run(['timeout', '850', BIN, 'check', prop, 'quick'], capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': d, 'VERIF_DIR_OUT': '/tmp/m'})
            ok = r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout
            return n, '%s %s %d %.0fs %s' % ('ok  ' if ok else 'MISS', prop, r.returncode, time.time() - t0, '' if ok else r.stdout[-400:])
        r = subprocess.run(['timeout', '850', BIN, 'checkall'], capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': d})
        out = r.stdout
        if r.returncode: return n, 'CRASH %d %s %s' % (r.returncode, out[-300:], r.stderr[:1500])
        v = sorted({l.split()[0] for l in out.splitlines() if ' VIOLATED ' in l})
        u = sorted({' '.join(l.split()[2:])[:110] for l in out.splitlines() if ' UNDECIDED ' in l})
        ok = (prop in v) if kind == 'bug' else not v
        detail = '' if ok and kind == 'bug' else '\n'.join('      ' + l[:230] for l in out.splitlines() if ' VIOLATED ' in l or l.startswith('      '))
        return n, '%s %s %s violated=%s undecided=%s\n%s' % ('ok  ' if ok else 'MISS' if kind == 'bug' else 'FALSE', kind, prop, ','.join(v), u, detail)
    finally:
        shutil.rmtree(d, ignore_errors=True)
os.makedirs('/tmp/m', exist_ok=True)
with cf.ThreadPoolExecutor(int(os.environ.get('J', '5'))) as ex:
    for n, r in ex.map(one, names): print(n, r.rstrip(), flush=True)
