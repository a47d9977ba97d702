#!/usr/bin/env python3
"""Driver of the solver-based checks.

  run.py ID [--tier quick|thorough]   decide property ID on /repo's working tree
  run.py --replay FILE                run a recorded counterexample against the real code
  run.py --all [--tier T]             every property of MANIFEST.json in turn (development)
  run.py --setup                      build the engine into the cache
"""
import sys, os, re, json, time, hashlib, subprocess, glob, threading, shutil, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, "build"))
CACHE = os.path.join(BUILD, "cache")
ENG = os.path.join(HERE, "engine")
RT = os.path.join(ENG, "rt")
CPUS = max(2, min(8, len(os.sched_getaffinity(0))))
DEFS = ["-D_FILE_OFFSET_BITS=64", "-D__STDC_FORMAT_MACROS", "-DBOOST_NO_CXX11_SCOPED_ENUMS", "-DLIBSUB_POSIX", "-D_GLIBCXX_ASSERTIONS"]
LIBS = ["-lboost_filesystem", "-lboost_locale", "-lboost_regex"]
SYMFLAGS = ["-O1", "-fPIE", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-include", RT + "/prefix.h", "-DVP_SYMBOLIC", "-w", "-I" + RT]
NATFLAGS = ["-O0", "-g1", "-fsanitize=address",  "-w", "-I" + RT]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def read(p):
    with open(p, "rb") as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def headers():
    hs = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/*.hpp") + glob.glob(REPO + "/tools/*.cc") + glob.glob(RT + "/*.h") + glob.glob(HERE + "/harness/*.h"))
    return digest(*[x for h in hs for x in (os.path.basename(h), read(h))])


_locks = {}
_glock = threading.Lock()


def cached(key, name, make):
    """path of the cached product `name` for `key`, made by make(tmp path) if absent"""
    d = os.path.join(CACHE, key)
    path = os.path.join(d, name)
    with _glock:
        l = _locks.setdefault(key, threading.Lock())
    with l:
        if os.path.exists(path):
            os.utime(d)
            return path
        os.makedirs(d, exist_ok=True)
        tmp = path + ".tmp%d" % os.getpid()
        make(tmp)
        os.rename(tmp, path)
    return path


def model_list():
    names = re.findall(r"\bvpm_([A-Za-z0-9_]+) \(", read(RT + "/models.cpp").decode())
    names = sorted(set(n for n in names if not re.match(r"(va_|vfs_|set_locale)", n)))
    va = sorted(set(re.findall(r"\bvpm_(va_[A-Za-z0-9_]+) \(", read(RT + "/models.cpp").decode())))
    return "".join('"%s",\n' % n for n in names)


class Builder:
    def __init__(self):
        self.hdr = headers()
        self.pool = ThreadPoolExecutor(CPUS)
        self.t0 = time.time()
        src = read(ENG + "/pass/SymPass.cpp")
        inc = model_list()
        self.pass_key = digest("pass", src, inc)
        self.rt_key = digest("rt", read(RT + "/rt.cpp"), read(RT + "/ops.h"), read(RT + "/arena.h"), read(RT + "/vp.h"), read(RT + "/rt.map"))

        def mkpass(out):
            inc_dir = out + ".inc"
            os.makedirs(inc_dir, exist_ok=True)
            with open(inc_dir + "/models.inc", "w") as f:
                f.write(inc)
            cxx = [f for f in sh(["llvm-config-18", "--cxxflags"]).split() if not f.startswith("-std=")]
            sh(["clang++-18", "-std=c++17", "-fPIC", "-shared", "-fno-rtti", "-O1", "-I" + inc_dir] + cxx + [ENG + "/pass/SymPass.cpp", "-o", out, "-ldl", "-w"])
            shutil.rmtree(inc_dir)

        def mkrt(out):
            sh(["clang++-18", "-std=c++17", "-O2", "-fPIC", "-shared", RT + "/rt.cpp", "-o", out, "-Wl,--version-script=" + RT + "/rt.map", "-Wl,-soname,librt_vp.so", "-lz3", "-ldl", "-w"])

        self.f_pass = self.pool.submit(cached, self.pass_key, "SymPass.so", mkpass)
        self.f_rt = self.pool.submit(cached, self.rt_key, "librt_vp.so", mkrt)
        self.f_main = self.pool.submit(cached, digest("main", read(RT + "/main.c"), read(RT + "/arena.h")), "main.o", lambda out: sh(["clang-18", "-O1", "-fno-builtin", "-fPIE", "-c", RT + "/main.c", "-o", out]))

    # objects
    def sym_obj(self, src, std, extra=()):
        # the front end's work does not wait for the pass
        key0 = digest("bc", src, read(src), self.hdr, std, repr(SYMFLAGS), repr(extra))
        bc = cached(key0, "o.bc", lambda out: sh(["clang++-18", "-std=" + std] + SYMFLAGS + DEFS + list(extra) + ["-I" + REPO + "/src", "-idirafter", REPO, "-I" + HERE + "/harness", "-emit-llvm", "-c", src, "-o", out]))
        so = self.f_pass.result()

        def mk(out):
            sh(["opt-18", "-load-pass-plugin=" + so, "-passes=sym", bc, "-o", out + ".bc"])
            sh(["clang++-18", "-fPIE", "-O0", "-w", "-c", out + ".bc", "-o", out])
            os.unlink(out + ".bc")
        return cached(digest("sym", key0, self.pass_key), "o.o", mk)

    def nat_obj(self, src, std, extra=()):
        key = digest("nat", src, read(src), self.hdr, std, repr(NATFLAGS), repr(extra))
        return cached(key, "o.o", lambda out: sh(["clang++-18", "-std=" + std] + NATFLAGS + DEFS + list(extra) + ["-I" + REPO + "/src", "-idirafter", REPO, "-I" + HERE + "/harness", "-c", src, "-o", out]))

    def link_sym(self, objs):
        rt = self.f_rt.result()
        main = self.f_main.result()
        objs = objs + [main]
        return cached(digest("linksym", *(objs + [rt])), "h", lambda out: sh(["clang++-18", "-pie"] + objs + ["-o", out, rt] + LIBS + ["-Wl,-rpath," + os.path.dirname(rt)]))

    def link_nat(self, objs):
        return cached(digest("linknat", *objs), "n", lambda out: sh(["clang++-18", "-fsanitize=address"] + objs + ["-o", out] + LIBS))

    def harness(self, hfile, srcs):
        allsrc = sorted(f for f in glob.glob(REPO + "/src/*.cc") if os.path.basename(f) != "version.cc")
        want = [REPO + "/src/" + s for s in srcs] if srcs else allsrc
        want = [w for w in want if os.path.exists(w)]
        for attempt in (want, allsrc):
            # the largest first
            attempt = sorted(attempt, key=lambda f: (0 if re.search("subrip|web_vtt|ssa", f) else 1, f))
            fs = [self.pool.submit(self.sym_obj, s, "c++11") for s in attempt]
            fs += [self.pool.submit(self.sym_obj, hfile, "c++11"), self.pool.submit(self.sym_obj, RT + "/models.cpp", "c++17", ("-fno-builtin",))]
            fn = [self.pool.submit(self.nat_obj, s, "c++11") for s in attempt]
            fn += [self.pool.submit(self.nat_obj, hfile, "c++11"), self.pool.submit(self.nat_obj, RT + "/native.cpp", "c++17")]
            sym = [f.result() for f in fs]
            nat = [f.result() for f in fn]
            try:
                a = self.pool.submit(self.link_sym, sym)
                b = self.pool.submit(self.link_nat, nat)
                return a.result(), b.result(), [os.path.basename(s) for s in attempt]
            except BuildError as e:
                if attempt == allsrc or len(attempt) == len(allsrc):
                    raise
        raise BuildError("link")


def prune():
    """the cache keeps what was used in the last hours"""
    try:
        for d in os.listdir(CACHE):
            p = os.path.join(CACHE, d)
            if time.time() - os.stat(p).st_mtime > 6 * 3600:
                shutil.rmtree(p, ignore_errors=True)
    except OSError:
        pass


def parse_harness(path):
    info = {"cases": [], "src": [], "covers": {}, "assume": [], "flags": {}}
    for l in read(path).decode().split("\n"):
        m = re.match(r"//@ (\w+) ?(.*)", l)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == "case":
            opts = dict(re.findall(r"\[([a-z-]+)=([^\]]*)\]", v))
            flags = re.findall(r"\[([a-z-]+)\]", v)
            body = re.sub(r"\[[a-z-]+(=[^\]]*)?\]", "", v)
            mm = re.match(r"(\d+) (.*?) :: (.*)", body.strip())
            info["cases"].append({"n": int(mm.group(1)), "name": mm.group(2).strip(), "bounds": mm.group(3).strip(), "opts": opts, "flags": flags})
        elif k == "src":
            info["src"] += v.split()
        elif k == "cover":
            n, labels = v.split(":", 1)
            info["covers"].setdefault(int(n), []).extend(x.strip() for x in labels.split(","))
        elif k == "assume":
            info["assume"].append(v)
    return info


def known_findings(prop):
    """lines 'known: property=<id> case=<n> message=<text>' of known_findings.txt"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(\d+) message=(.*?)(?: -- (.*))?$", l.strip())
            if m and m.group(1) == prop:
                out.append({"case": int(m.group(2)), "msg": m.group(3), "what": m.group(4) or m.group(3), "line": l.strip()})
    return out


def run_native(exe, case, tier, text, work, limit=20):
    f = os.path.join(work, "in%d_%d.txt" % (os.getpid(), threading.get_ident()))
    with open(f, "w") as o:
        o.write(text)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0", LC_ALL="C")
    p = subprocess.run([exe, "--case", str(case), "--tier", str(tier), "--limit", str(limit), "--input", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
    os.unlink(f)
    m = re.search(r"^RESULT (\S+) (\S+) ?(.*)$", p.stdout, re.M)
    if not m:
        return ("error", "0", p.stdout + p.stderr)
    return (m.group(1), m.group(2), m.group(3).strip(), p.stderr[-4000:])


def run_batch(exe, case, tier, records, work, limit=20):
    f = os.path.join(work, "batch%d_%d.txt" % (os.getpid(), threading.get_ident()))
    with open(f, "w") as o:
        o.write("".join(r + "==\n" for r in records))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", LC_ALL="C")
    p = subprocess.run([exe, "--case", str(case), "--tier", str(tier), "--limit", str(limit), "--batch", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env)
    os.unlink(f)
    return [(m.group(1), m.group(2), m.group(3).strip()) for m in re.finditer(r"^RESULT (\S+) (\S+) ?(.*)$", p.stdout, re.M)]


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hfile = os.path.join(HERE, "harness", prop + ".cc")
    info = parse_harness(hfile)
    prune()
    try:
        b = Builder()
        exe, nat, srcs = b.harness(hfile, info["src"])
    except BuildError as e:
        print("error: cannot build: %s" % e)
        return 2
    t_build = time.time() - t0
    work = os.path.join(BUILD, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    tnum = 0 if tier == "quick" else 1
    total = 420 if tier == "quick" else int(os.environ.get("VP_THOROUGH_S", "3000"))
    only = os.environ.get("VP_CASES")
    cases = [c for c in info["cases"] if tier == "thorough" or "thorough-only" not in c["flags"]]
    if only:
        cases = [c for c in cases if str(c["n"]) in only.split(",")]
    deadline = time.time() + total
    par = min(4, len(cases)) or 1
    jobs = CPUS if par == 1 else max(2, CPUS // 2)

    def one(c):
        budget = float(c["opts"].get(tier, c["opts"].get("quick", 60)))
        if tier == "thorough" and "thorough" not in c["opts"]:
            budget *= 10
        budget = max(5, min(budget, deadline - time.time()))
        out = os.path.join(work, "case%d.json" % c["n"])
        cmd = [exe, "--case", str(c["n"]), "--tier", str(tnum), "--jobs", c["opts"].get("jobs", str(jobs)), "--budget", "%.1f" % budget, "--seed", str(seed), "--samples", c["opts"].get("samples", "24" if tier == "quick" else "200"),
               "--qtimeout", c["opts"].get("qtimeout", "10000" if tier == "quick" else "60000"), "--path-cpu", c["opts"].get("path-cpu", "20" if tier == "quick" else "60"), "--out", out]
        if "max-paths" in c["opts"] and tier == "quick":
            cmd += ["--max-paths", c["opts"]["max-paths"]]
        env = dict(os.environ, LC_ALL="C", MALLOC_ARENA_MAX="1")
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=work)
        try:
            r = json.loads(read(out).decode(errors="replace"))
        except Exception:
            return c, None, p.stderr[-2000:]
        # replay: violations first, then the sampled paths
        r["replays"] = []
        for v in r["violations"]:
            r["replays"].append((v, run_native(nat, c["n"], tnum, v["input"], work)))
        recs = [s["input"] for s in r["samples"]]
        r["validated"] = list(zip(r["samples"], run_batch(nat, c["n"], tnum, recs, work))) if recs else []
        return c, r, ""

    results = []
    with ThreadPoolExecutor(par) as ex:
        for f in as_completed([ex.submit(one, c) for c in cases]):
            results.append(f.result())
    results.sort(key=lambda x: x[0]["n"])

    known = known_findings(prop)
    bad, found, unconfirmed, mismatches = [], [], [], []
    tot = dict.fromkeys(["paths", "pending", "abnormal", "decisions", "queries", "sat", "unsat", "unknown", "arith_queries", "arith_spurious", "asserts_folded", "asserts_domain", "asserts_solver", "assumes", "stale", "cert_paths", "cert_claims", "cert_open"], 0)
    solver_s = 0.0
    validated = 0
    samples, per_case, events, sites = [], [], {}, {}
    rdir = os.path.join(BUILD, "replay")
    failed_cases = []
    for c, r, err in results:
        if r is None:
            failed_cases.append((c["n"], err))
            continue
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_s"]
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["sites"].items():
            sites[k] = sites.get(k, 0) + v
        missing = [l for l in info["covers"].get(c["n"], []) if l not in r["covers"]]
        incomplete = r["pending"] + r["abnormal"] + r["unknown"] + sum(v for k, v in r["events"].items() if re.match("divergence|lost|incomplete|model-mismatch|undecided|unsupported|killed|concretized-cap|abnormal", k))
        cand = [(v, n, "path model") for v, n in r["replays"]]
        for s, n in r["validated"]:
            if n[0] == "violation":
                cand.append(({"msg": n[2], "input": s["input"]}, n, "replayed path"))
            elif n[0] in ("done", "stop") and n[1] == s["digest"]:
                validated += 1
            elif n[0] in ("done", "stop"):
                mismatches.append({"case": c["n"], "input": s["input"], "symbolic": s["digest"], "native": n[1]})
            else:
                mismatches.append({"case": c["n"], "input": s["input"], "native": " ".join(n[:3])})
        for v, n, kind in cand:
            if n[0] != "violation":
                unconfirmed.append({"case": c["n"], "msg": v["msg"], "input": v["input"], "native": n[0]})
                continue
            kf = [k for k in known if k["case"] == c["n"] and (k["msg"] in v["msg"] or k["msg"] in n[2])]
            if kf:
                found.append(kf[0])
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d-%s.txt" % (prop, c["n"], digest(v["msg"], v["input"])[:8]))
            with open(path, "w") as f:
                f.write("# property %s case %d tier %d\n# case: %s\n# violated: %s\n# native: %s\n%s" % (prop, c["n"], tnum, c["name"], v["msg"], n[2], v["input"]))
            bad.append({"case": c["n"], "msg": v["msg"], "native": n[2], "replay": path, "kind": kind})
        for s in r["samples"][:2]:
            samples.append({"case": c["name"], "model": s["input"].replace("\n", "; ").strip(), "digest": s["digest"]})
        for k, v in r["notes"].items():
            pass
        per_case.append({"case": c["n"], "name": c["name"], "bounds": c["bounds"], "paths": r["paths"], "pending": r["pending"], "paths_add_up_to_whole_input_space": {"whole": True, "not countable": "constraints over several inputs"}.get(r["partition"], False), "queries": r["queries"], "unknown": r["unknown"], "asserts": {"folded": r["asserts_folded"], "decided on domain": r["asserts_domain"], "by solver": r["asserts_solver"]},
                         "ends": r["ends"], "witnesses_reached": r["covers"], "witnesses_missing": missing, "wall_s": round(r["wall_s"], 2), "complete_within_bounds": incomplete == 0})
        if missing and not r["violations"]:
            print("note: case %d (%s) did not reach %s" % (c["n"], c["name"], ", ".join(missing)))
        if incomplete:
            print("note: case %d (%s) is incomplete: %d pending, %d abnormal, %d unknown, %s" % (c["n"], c["name"], r["pending"], r["abnormal"], r["unknown"], {k: v for k, v in r["events"].items() if not k.startswith("native")}))
    for m in mismatches[:5]:
        print("note: path not validated: %s" % json.dumps(m)[:600])
    for u in unconfirmed[:8]:
        print("note: candidate not reproduced on the real code: case %d %s [%s]" % (u["case"], u["msg"], u["input"].replace("\n", "; ")[:300]))
    for n, e in failed_cases:
        print("note: case %d gave no result: %s" % (n, e))
    ok_cases = [p for p in per_case if p["complete_within_bounds"]]
    demangled = {}
    if sites:
        try:
            names = sorted(sites)
            ds = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
            demangled = {d: sites[n] for n, d in zip(names, ds)}
        except OSError:
            demangled = sites
    in_repo = {k: v for k, v in demangled.items() if re.search(r"\bsub::|iso6937|STL|stl_", k)}
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"], "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "explanation": "states: symbolic paths executed to their end; transitions: branch decisions on symbolic conditions; validated traces: solver models of explored paths run on the uninstrumented, sanitized code with the same observations",
            "exhaustive": len(ok_cases) == len(cases) and not failed_cases,
            "sources_encoded": srcs,
            "functions_with_symbolic_decisions": dict(sorted(in_repo.items(), key=lambda x: -x[1])[:60]),
            "library_functions_with_symbolic_decisions": len(demangled) - len(in_repo),
            "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
            "queries_in_integer_real_arithmetic": tot["arith_queries"],
            "assertions": {"constant_on_path": tot["asserts_folded"], "decided_on_finite_domain": tot["asserts_domain"], "discharged_by_solver": tot["asserts_solver"]},
            "decided_on_domains_and_confirmed_by_z3": {"paths": tot["cert_paths"], "decisions_and_assertions": tot["cert_claims"], "paths_left_open": tot["cert_open"]},
            "solver_s": round(solver_s, 2), "stale_shadows": tot["stale"],
            "cases": per_case,
            "unconfirmed_candidates": unconfirmed[:10], "unvalidated_paths": mismatches[:10],
            "events": dict(sorted(events.items(), key=lambda x: -x[1])[:20]),
            "build_s": round(t_build, 1),
        },
        "assumptions": info["assume"] + ["LLVM 18 bitcode of /repo/src at -O1 (C++11, NDEBUG off, libstdc++ templates instantiated and instrumented) is what is encoded", "libc string, number, stdio and stream primitives are the models in engine/rt/models.cpp; sampled paths are validated natively", "bounds are those of each case; inputs outside them are not covered"],
        "wall_s": round(time.time() - t0, 1), "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for l in sorted(set(k["what"] for k in found)):
        print("KNOWN-FINDING: property=%s %s" % (prop, l))
    print("%s %s: %d paths, %d decisions, %d queries (%.1f s solver), %d/%d cases complete, %d paths validated natively, build %.1f s, total %.1f s" % (
        prop, tier, tot["paths"], tot["decisions"], tot["queries"], solver_s, len(ok_cases), len(cases), validated, t_build, time.time() - t0))
    if bad:
        for v in bad[:6]:
            print("case %d: %s (native: %s)" % (v["case"], v["msg"], v["native"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, bad[0]["replay"]))
        return 1
    if failed_cases and not per_case:
        return 2
    return 0


def replay(path):
    text = read(path).decode()
    m = re.match(r"# property (\S+) case (\d+) tier (\d+)", text)
    hfile = os.path.join(HERE, "harness", m.group(1) + ".cc")
    info = parse_harness(hfile)
    b = Builder()
    exe, nat, _ = b.harness(hfile, info["src"])
    work = os.path.join(BUILD, "work")
    os.makedirs(work, exist_ok=True)
    r = run_native(nat, int(m.group(2)), int(m.group(3)), text, work)
    print(r[3] if len(r) > 3 else "")
    print(r[:3])
    return 1 if r[0] == "violation" else 0


def minsrc(prop):
    """smallest list of repo sources that links (development: what to put in //@ src)"""
    hfile = os.path.join(HERE, "harness", prop + ".cc")
    b = Builder()
    srcs = sorted(f for f in glob.glob(REPO + "/src/*.cc") if os.path.basename(f) != "version.cc")
    objs = {s: b.pool.submit(b.nat_obj, s, "c++11") for s in srcs}
    objs = {s: f.result() for s, f in objs.items()}

    def nm(o, flag):
        return set(l.split()[-1] for l in sh(["nm", flag, o]).split("\n") if l.strip())
    und = {s: nm(o, "-u") for s, o in objs.items()}
    dfn = {s: set(l.split()[-1] for l in sh(["nm", "--defined-only", "-g", o]).split("\n") if l and l.split()[-2] in "TDBR") for s, o in objs.items()}
    need = nm(b.nat_obj(hfile, "c++11"), "-u")
    chosen = []
    while True:
        more = [s for s in srcs if s not in chosen and dfn[s] & need]
        if not more:
            break
        chosen += more
        for s in more:
            need |= und[s]
    print("//@ src " + " ".join(sorted(os.path.basename(s) for s in chosen)))


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        k = a.index("--tier")
        tier = a[k + 1]
        del a[k:k + 2]
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--minsrc":
        return minsrc(a[1])
    if a[0] == "--setup":
        b = Builder()
        b.f_pass.result(), b.f_rt.result(), b.f_main.result()
        return 0
    if a[0] == "--all":
        rc = 0
        for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]:
            r = check(c["property"], tier)
            if r:
                print("== %s exit %d" % (c["property"], r))
                rc = 1
        return rc
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
