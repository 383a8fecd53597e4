#!/usr/bin/env python3
"""usage: mk.py FILE.py NAME DIR: makes a copy of /repo with the edit"""
import sys, os, shutil, importlib.util
spec = importlib.util.spec_from_file_location('e', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
d = sys.argv[3]
shutil.rmtree(d, ignore_errors=True)
shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'), symlinks=True)
for f, old, new in m.edits[sys.argv[2]][2]:
    p = os.path.join(d, f); s = open(p).read() if os.path.exists(p) else ''
    assert old == '' or old in s, old
    open(p, 'w').write(s + new if old == '' else s.replace(old, new, 1))
