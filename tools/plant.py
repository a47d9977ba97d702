#!/usr/bin/env python3
"""development: make /verif/seeded/<id>/ from a spec, and confirm it: the patched tree builds, passes its tests and fails the demo,
the unchanged tree passes it; then say whether the property's check catches it.   plant.py SPEC.py [id...]"""
import sys, os, re, subprocess, json, runpy, time
H = "/verif/seeded/"
DEMO = '''#!/bin/bash
# cwd: the repository, built
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -DBOOST_NO_CXX11_SCOPED_ENUMS -DLIBSUB_POSIX -I"$PWD/src" "$here/demo.cc" -o "$t/demo" -L"$PWD/build/src" -Wl,-rpath,"$PWD/build/src" -lsub-1.0 -lboost_filesystem -lboost_locale -lboost_regex -lboost_system || exit 3
export DUMPSUBS="env LD_LIBRARY_PATH=$PWD/build/src $PWD/build/tools/dumpsubs"
cd "$t" && timeout 60 ./demo
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
static int bad = 0;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); bad = 1; } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def restore():
    sh("git -C /repo checkout -- . && bash /opt/vp/build.sh")
def touches_original(diff):
    """does the diff remove or change a line that is in the original repository's file (or add next to nothing removed)"""
    old = None; removed = added = 0
    for l in diff.split("\n"):
        m = re.match(r"--- a/(.*)", l)
        if m: old = set(x.strip() for x in sh("git -C /repo show 1fa2160:" + m.group(1)).stdout.split("\n")); continue
        if l.startswith("-") and old is not None and l[1:].strip() and l[1:].strip() in old and not re.fullmatch(r"[{}();\s]*", l[1:]): return True
    return False
def record(i, v):
    f = "/verif/tools/caught.json"
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[i] = v
    json.dump(d, open(f, "w"), indent=1, sort_keys=True)
base = json.load(open("/opt/vp/BASELINE.json"))
base = set(base.get("passed") or base.get("stable") or base) if isinstance(base, dict) else set(base)
spec = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
for b in spec:
    i = b["id"]
    if only and i not in only: continue
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty"
    d = H + i
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cc", "w").write(PRE + b["demo"])
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    try:
        for f, old, new in b["edits"]:
            p = "/repo/src/" + f
            s = open(p, encoding="latin-1", newline="").read()
            if s.count(old) != 1: print(i, "BAD EDIT", f, s.count(old), repr(old[:60])); ok = False; break
            # the lines changed are of the original repository
            open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))
        if not ok: continue
        r = sh("git -C /repo diff"); open(d + "/patch.diff", "w", encoding="latin-1").write(r.stdout)
        own = touches_original(r.stdout)
        if not own: print(i, "ONLY LINES OF OUR OWN COMMITS"); continue
        sh("git -C /repo checkout -- .")
        r = sh("bash /opt/vp/build.sh && cd /repo && %s/demo.sh" % d)
        if r.returncode: print(i, "DEMO FAILS UNPATCHED", r.stdout[-1500:]); continue
        r = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/test.sh /tmp/plant.json" % d)
        try: t = json.load(open("/tmp/plant.json"))
        except Exception: print(i, "NO TESTS", r.stdout[-1500:]); continue
        if len(base & set(t["passed"])) < 29: print(i, "TESTS FAIL", len(t["passed"]), t["failed"]); continue
        r = sh("cd /repo && %s/demo.sh" % d)
        if r.returncode in (0, 3): print(i, "DEMO DOES NOT FAIL", r.returncode, r.stdout[-800:]); continue
        t0 = time.time()
        if os.environ.get("NOCHECK"): print(i, "ok"); continue
        c = sh("cd /verif && python3 run.py %s" % b["property"])
        caught = c.returncode == 1 and ("VIOLATION property=%s" % b["property"]) in c.stdout
        record(i, "caught" if caught else "missed")
        print(i, b["property"], "caught" if caught else "MISSED rc=%d" % c.returncode, "%.0f s" % (time.time() - t0), "" if caught else c.stdout[-600:], flush=True)
    finally:
        restore()
