#!/usr/bin/env python3
"""Checks that the tools are there, that every specification parses, that gogll
builds.  (Each check builds what it needs itself.)"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "harness")]
from core import *
with Scratch("setup") as sc:
    build_gogll(sc)
    mods = sorted(f for f in os.listdir(SPEC) if f.endswith(".tla"))
    def one(f):
        r = run(["java", "-Djava.io.tmpdir=" + sc.dir, "-cp", TLA_JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", f], cwd=SPEC)
        return f, r
    bad = 0
    for f, r in pmap(one, mods, 4):
        ok = r.rc == 0 and "*** Errors" not in r.out and "Fatal" not in r.out
        print(f, "ok" if ok else r.out[-1500:] + r.err[-500:])
        bad += not ok
sys.exit(1 if bad else 0)
