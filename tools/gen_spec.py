#!/usr/bin/env python3
"""Copies the reference functions from a checkout into /verif/spec (run by hand
when the reference is revised; the checks never run it)."""
import os, re, sys
src = sys.argv[1] if len(sys.argv) > 1 else "/repo"
dst = "/verif/spec"
MOD = "github.com/g-rath/osv-detector"
for root, dirs, files in os.walk(src):
    dirs[:] = [d for d in dirs if d not in (".git", "testdata", "fixtures", "generators", "__snapshots__")]
    for f in files:
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        rel = os.path.relpath(os.path.join(root, f), src)
        s = open(os.path.join(root, f)).read()
        s = re.sub(r'"%s/(internal|pkg)' % re.escape(MOD), r'"%s/internal/verifspec/\1' % MOD, s)
        out = os.path.join(dst, rel + ".txt")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        open(out, "w").write(s)
        print(out)
