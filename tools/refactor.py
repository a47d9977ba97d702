#!/usr/bin/env python3
"""development: apply behaviour-preserving edits to a scratch copy of /repo and see that the checks stay quiet.   refactor.py SPEC.py [name...]"""
import sys, os, subprocess, runpy, re, time
W = "/tmp/vp-rf"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
for name, props, edits in runpy.run_path(sys.argv[1])["RF"]:
    if sys.argv[2:] and name not in sys.argv[2:]: continue
    sh("rm -rf /tmp/vp-rf && cp -a /repo /tmp/vp-rf")
    ok = True
    for f, old, new in edits:
        p = W + "/src/" + f
        s = open(p, encoding="latin-1", newline="").read()
        if s.count(old) != 1: print(name, "BAD EDIT", f, s.count(old), repr(old[:80])); ok = False; continue
        open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))
    if not ok: continue
    for p in props.split():
        t = time.time()
        r = sh("/verif/run.py %s" % p, env=dict(os.environ, VP_REPO=W, VERIF_TIER="quick"))
        print("%-20s %s exit %d %.0f s %s" % (name, p, r.returncode, time.time() - t, "" if r.returncode == 0 and "note:" not in r.stdout else r.stdout[-1800:]), flush=True)
sh("rm -rf /tmp/vp-rf")
