#!/usr/bin/env python3
"""Runs one check: compiles /repo's current sources and the harness to LLVM IR, lets the engine decide every
assertion for all values within the harness's bounds, replays counterexamples (and a sample of ordinary
paths) against natively compiled code, writes evidence.
usage: check.py ID [--tier quick|thorough] [--entry NAME] [--keep] | check.py --replay FILE"""
import sys, os, re, json, subprocess, hashlib, time, glob, shutil, random, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("K52_REPO", "/repo")
BUILD = os.environ.get("SYM_BUILD", os.path.join(VERIF, "build"))
CLANG = "/usr/bin/clang++-18"; OPT = "/usr/bin/opt-18"; LINK = "/usr/bin/llvm-link-18"; NM = "/usr/bin/llvm-nm-18"
JOBS = min(8, os.cpu_count() or 8)
DEF = ["-DBUILD_WITH_BOOST_THREAD", "-DBUILD_WITH_FFTW3", "-D_USE_MATH_DEFINES", "-DBUILD_WITH_BOOST_UNIT_TESTS"]
INC = ["-I" + VERIF + "/shadow", "-I" + VERIF + "/runtime", "-I" + VERIF + "/harness", "-I" + REPO + "/include", "-I" + REPO + "/src"]
IRF = ["-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSYM_ENGINE", "-fno-builtin", "-emit-llvm", "-w"]
NATF = ["-std=gnu++17", "-O1", "-ffp-contract=off", "-w"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def rd(p):
    with open(p, "rb") as f: return f.read()
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
class BuildError(Exception): pass
def must(cmd):
    r = run(cmd)
    if r.returncode: raise BuildError(" ".join(cmd)[:400] + "\n" + r.stdout.decode(errors="replace")[:4000])
def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".inl", ".hpp", ".cpp", ".hxx", ".ipp", ".tpp")): h.update(f.encode()); h.update(rd(os.path.join(d, f)))
    return h.hexdigest()[:24]
def ensure_engine():
    src = sorted(glob.glob(VERIF + "/engine/*.cpp") + glob.glob(VERIF + "/engine/*.h") + [VERIF + "/engine/build.sh"])
    want = sha(*[rd(s) for s in src]); stamp = BUILD + "/symx.stamp"; exe = BUILD + "/symx"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want: return exe
    os.makedirs(BUILD, exist_ok=True)
    must(["bash", VERIF + "/engine/build.sh", exe])
    with open(stamp, "w") as f: f.write(want)
    return exe
def parse_harness(pid):
    fs = glob.glob(VERIF + "/harness/%s*.cpp" % pid)
    if len(fs) != 1: raise BuildError("harness for %s: %s" % (pid, fs))
    src = open(fs[0]).read()
    m = re.search(r"/\*CHECK(.*?)\*/", src, re.S)
    cfg = json.loads(m.group(1))
    for d in cfg.get("undef", []): DEF.remove(d)
    return fs[0], src, cfg
def group_sources(groups):
    r = []
    for g in groups:
        r += sorted(glob.glob(REPO + "/src/" + g + "/**/*.cpp", recursive=True)) if not g.endswith(".cpp") else [REPO + "/" + g]
    return r
def compile_all(pid, hfile, cfg, pool, keep_native=True):
    """returns (ir path, future of the native executable)"""
    inc_hash = tree_hash([REPO + "/include", REPO + "/src"])
    vh = sha(*[rd(f) for f in sorted(glob.glob(VERIF + "/runtime/*") + glob.glob(VERIF + "/shadow/**/*.hpp", recursive=True) + glob.glob(VERIF + "/harness/*.h"))])
    cache = BUILD + "/cache"; os.makedirs(cache, exist_ok=True)
    srcs = group_sources(cfg["sources"]); san = cfg.get("sanitize", "address")
    ub = ["-fsanitize=signed-integer-overflow,float-cast-overflow,shift,integer-divide-by-zero,bounds,null,unreachable,return", "-fno-sanitize-recover=all"] if cfg.get("ubsan") else []
    natf = NATF + (["-fsanitize=" + san] if san else []) + ub
    rt_ir = [VERIF + "/runtime/" + f for f in ("rt.cpp", "env.cpp", "fftw.cpp", "threads.cpp") + (("file_model.cpp",) if cfg.get("files") else ())]
    rt_nat = [VERIF + "/runtime/" + f for f in ("native.cpp", "env.cpp", "threads.cpp")] + ([VERIF + "/runtime/fftw.cpp"] if cfg.get("fftw") == "model" else [])
    def one(src, native):
        flags = natf if native else IRF
        isrt = src.startswith(VERIF + "/runtime/")
        key = sha(rd(src), os.path.relpath(src, "/"), vh, "" if isrt else inc_hash, flags, DEF)
        out = cache + "/" + os.path.basename(src)[:-4] + "." + key + (".o" if native else ".bc")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            must((["g++"] if native else [CLANG]) + flags + DEF + INC + ["-c", src, "-o", tmp]); os.replace(tmp, out)
        return out
    ir = [pool.submit(one, s, False) for s in [hfile] + srcs + rt_ir]
    ents = [e["name"] for e in cfg["entries"]]
    nat = [pool.submit(one, s, True) for s in [hfile] + srcs + rt_nat]
    work = tempfile.mkdtemp(prefix="symx_"); 
    bcs = [f.result() for f in ir]
    must([LINK, "-o", work + "/prog.bc"] + bcs)
    if not cfg.get("_all") and re.search(rb" U \S*3k52", run([NM, "--undefined-only", work + "/prog.bc"]).stdout):
        # the code has moved: take every source file of the library
        c = dict(cfg, _all=True); c["sources"] = [os.path.relpath(f, REPO) for d in ("common", "dsp", "optimization", "parallel") for f in sorted(glob.glob(REPO + "/src/" + d + "/**/*.cpp", recursive=True)) if os.path.basename(f) not in ("async_call_chain.cpp", "mpi_worker_pool.cpp")]
        have = set(srcs); c["sources"] = cfg["sources"] + [f for f in c["sources"] if REPO + "/" + f not in have]
        shutil.rmtree(work, ignore_errors=True)
        return compile_all(pid, hfile, c, pool)
    def link_native():
        objs = [f.result() for f in nat]
        tab = work + "/tab.cpp"
        with open(tab, "w") as f:
            f.write("extern \"C\" {" + "".join("void %s();" % e for e in ents) + "struct Tab{const char*n;void(*f)();}; Tab sym_entries[]={" + "".join('{"%s",%s},' % (e, e) for e in ents) + "{0,0}};}\n")
        must(["g++"] + natf + [tab] + objs + ["-o", work + "/native"] + ([] if cfg.get("fftw") == "model" else ["-lfftw3"]) + ["-lpthread"])
        return work + "/native"
    return work, work + "/prog.bc", link_native, len(srcs)
NATENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:malloc_fill_byte=203:max_malloc_fill_size=1000000:detect_stack_use_after_return=0:allocator_may_return_null=0", "UBSAN_OPTIONS": "exitcode=98:print_stacktrace=0", "TSAN_OPTIONS": "exitcode=97:halt_on_error=1"}
def native_run(exe, entry, wit, timeout=20):
    d = tempfile.mkdtemp(prefix="symreplay_")
    try:
        env = dict(os.environ); env.update(NATENV); env["SYM_WITNESS"] = wit
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        p = subprocess.Popen([exe, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d, preexec_fn=lim)
        try: out, _ = p.communicate(timeout=timeout); rc = p.returncode
        except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate(); rc = "timeout"
        return rc, out.decode(errors="replace")
    finally: shutil.rmtree(d, ignore_errors=True)
def unreach(exe, entry, labels, seed):
    """labels the real code does reach in random runs"""
    def one(i):
        d = tempfile.mkdtemp(prefix="symreplay_")
        try: return subprocess.run([exe, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, SYM_RANDOM=str(seed * 1000 + i), **NATENV), cwd=d, timeout=20).stdout.decode(errors="replace")
        except subprocess.TimeoutExpired: return ""
        finally: shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(JOBS) as ex: seen = set(l[2:] for o in ex.map(one, range(200)) for l in o.splitlines() if l.startswith("C "))
    return [l for l in labels if l.replace(" ", "_") in seen]
def reproduced(v, rc, out):
    m = re.search(r"REPLAY-VIOLATION (.*)", out)
    if m: return m.group(1)
    if rc == "timeout": return "the real code does not return within 20 s" if v["kind"] in ("nontermination", "deadlock") else None
    if "AddressSanitizer" in out: return "AddressSanitizer: " + (re.search(r"ERROR: AddressSanitizer: (.*)", out) or [0, ""])[1][:120]
    if "ThreadSanitizer" in out: return "ThreadSanitizer: " + (re.search(r"ThreadSanitizer: (.*)", out) or [0, ""])[1][:120]
    if "runtime error:" in out: return "UBSan: " + re.search(r"runtime error: (.*)", out)[1][:160]
    if isinstance(rc, int) and (rc < 0 or rc in (99, 98, 97, 134)): return "abnormal end (%s): %s" % (rc, out[-200:].strip().replace("\n", " "))
    return None
def known_list(pid):
    ks = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) msg=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == pid: ks.append((m.group(2), m.group(3), m.group(4).strip()))
    return ks
def close(a, b, tol):
    import math
    if a != a and b != b: return True
    if a == b: return True
    if math.isinf(a) or math.isinf(b) or a != a or b != b: return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
def validate(wit, out, real):
    """compare the values the engine predicts with those the real code produced"""
    exp = [l.split() for l in wit.splitlines() if l[:2] in ("O ", "P ")]; got = [l.split() for l in out.splitlines() if l[:2] in ("O ", "P ")]
    if len(exp) != len(got): return "observed %d values, predicted %d" % (len(got), len(exp))
    for e, g in zip(exp, got):
        if e[0] == "O":
            if e[1:] != g[1:]: return "%s: predicted %s, observed %s" % (e[1], e[2], g[2])
        else:
            a, b = float.fromhex(e[2]) if "n" not in e[2] else float(e[2]), float.fromhex(g[2]) if "n" not in g[2] else float(g[2])
            if not close(a, b, 1e-6 if real else 0.0): return "%s: predicted %r, observed %r" % (e[1], a, b)
    return None
def witfmt(w):  # names must not contain blanks
    r = []
    for l in w.splitlines():
        t, rest = l[:2], l[2:]; n, v = rest.rsplit(" ", 1); r.append(t + n.replace(" ", "_") + " " + v)
    return "\n".join(r) + "\n"
def describe(w, n=14):
    ls = [l for l in w.splitlines() if l[:2] in ("I ", "D ")]
    r = []
    for l in ls[:n]:
        k = l[0]; name, v = l[2:].rsplit(" ", 1)
        if k == "D":
            try: v = repr(float.fromhex(v)) if "n" not in v else v
            except ValueError: pass
        r.append("%s=%s" % (name, v))
    return ", ".join(r) + (", ... %d more" % (len(ls) - n) if len(ls) > n else "")
def main():
    av = sys.argv[1:]
    if av and av[0] == "--replay": return replay(av[1])
    pid = av[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = "--keep" in av
    if "--tier" in av: tier = av[av.index("--tier") + 1]
    if "--entry" in av: only = av[av.index("--entry") + 1].split(",")
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    hfile, hsrc, cfg = parse_harness(pid)
    if tier == "quick": cfg["entries"] = [e for e in cfg["entries"] if e.get("tier", "quick") == "quick"]
    else:  # an entry may be superseded by a deeper twin
        sup = set(e.get("replaces") for e in cfg["entries"]); cfg["entries"] = [e for e in cfg["entries"] if e["name"] not in sup]
    if only: cfg["entries"] = [e for e in cfg["entries"] if e["name"] in only]
    pool = ThreadPoolExecutor(JOBS)
    engf = ThreadPoolExecutor(1).submit(ensure_engine)
    work, ir, link_native, nsrc = compile_all(pid, hfile, cfg, pool)
    engine = engf.result()
    t1 = time.time()
    natfut = ThreadPoolExecutor(1).submit(link_native)
    try: return decide(pid, tier, seed, t0, t1, cfg, engine, ir, natfut, work, keep, only)
    finally:
        try: natfut.result()
        except Exception: pass
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print("work dir", work)
def decide(pid, tier, seed, t0, t1, cfg, engine, ir, natfut, work, keep, only):
    budget = cfg.get("time_quick", 150) if tier == "quick" else cfg.get("time_thorough", 820)
    groups = {}
    for e in cfg["entries"]:
        o = e.get("opts", ""); groups.setdefault(("round" if "round" in o else "real" if "real" in o else "exact") + ("_noinline" if "noinline" in o else ""), []).append(e)
    reports = []; tend = time.time() + budget
    for g, es in groups.items():
        rp = work + "/rep_%s.json" % g
        sys.stdout.flush(); args = [engine, "--bc", ir, "--jobs", str(JOBS), "--out", rp, "--time", str(max(20, int(tend - time.time())))]
        if g.endswith("_noinline"): args.append("--no-inline")
        for e in es:
            o = e.get("opts", "").replace("noinline", "").strip(",")
            if tier == "thorough" and e.get("opts_thorough") is not None: o = e["opts_thorough"]
            args.append(e["name"] + (":" + o if o else ""))
        r = run(args)
        if r.returncode or not os.path.exists(rp): print(r.stdout.decode(errors="replace")[-3000:]); print("ENGINE-ERROR rc=%s" % r.returncode); return 2
        noise = r.stdout.decode(errors="replace").strip()
        if noise: print("engine:", noise[-600:])
        reports += json.load(open(rp))["entries"]
    t2 = time.time()
    byname = {e["name"]: e for e in cfg["entries"]}
    native = natfut.result()
    t3 = time.time()
    known = known_list(pid); viol = []; knownhit = {}; unconf = []
    rdir = VERIF + "/replay/" + pid; shutil.rmtree(rdir, ignore_errors=True)
    # replay counterexamples
    todo = []
    for r in reports:
        for i, v in enumerate(r["violations"]): todo.append((r, i, v))
    def conf(t):
        r, i, v = t; w = work + "/v_%s_%d.txt" % (r["entry"], i)
        with open(w, "w") as f: f.write(witfmt(v["witness"]))
        rc, out = native_run(native, r["entry"], w); return (r, v, w, rc, out, reproduced(v, rc, out))
    rpool = ThreadPoolExecutor(JOBS)
    for r, v, w, rc, out, rep in rpool.map(conf, todo):
        if rep is None: unconf.append({"entry": r["entry"], "kind": v["kind"], "msg": v["msg"], "where": v["where"], "native_rc": rc, "native_out": out[-300:], "witness": describe(v["witness"])}); continue
        k = [d for (en, ms, d) in known if en == r["entry"] and ms in (v["kind"] + ": " + v["msg"] + " / " + rep)]
        if k: knownhit[k[0]] = knownhit.get(k[0], 0) + 1; continue
        os.makedirs(rdir, exist_ok=True); p = rdir + "/%s_%d.witness" % (r["entry"], len(viol))
        with open(p, "w") as f: f.write("# property=%s entry=%s\n# engine: %s: %s\n# at: %s\n# real code: %s\n" % (pid, r["entry"], v["kind"], v["msg"], v["where"], rep) + witfmt(v["witness"]))
        viol.append({"path": p, "entry": r["entry"], "kind": v["kind"], "msg": v["msg"], "where": v["where"], "real": rep, "witness": describe(v["witness"])})
    # replay ordinary paths
    todo = []
    for r in reports:
        for i, s in enumerate(r["samples"]): todo.append((r, i, s))
    random.Random(seed).shuffle(todo); nval = 0; disagree = []
    todo = todo[:cfg.get("validate", 48)]
    def val(t):
        r, i, s = t; w = work + "/s_%s_%d.txt" % (r["entry"], i)
        with open(w, "w") as f: f.write(witfmt(s))
        rc, out = native_run(native, r["entry"], w); return (r, s, w, rc, out)
    for r, s, w, rc, out in rpool.map(val, todo):
        rep = reproduced({"kind": "nontermination"}, rc, out)
        if rep and "REPLAY-DIVERGED" not in out and not r["real"]:
            # the engine proved the assertions on this path, the real code fails: a genuine failure on concrete input
            k = [d for (en, ms, d) in known if en == r["entry"] and ms in rep]
            if k: knownhit[k[0]] = knownhit.get(k[0], 0) + 1; continue
        if rc == 66: continue                                   # input outside the assumptions after rounding
        if rep:
            os.makedirs(rdir, exist_ok=True); p = rdir + "/%s_p%d.witness" % (r["entry"], len(viol))
            with open(p, "w") as f: f.write("# property=%s entry=%s\n# found while replaying a solver-generated path\n# real code: %s\n" % (pid, r["entry"], rep) + witfmt(s))
            viol.append({"path": p, "entry": r["entry"], "kind": "replay", "msg": rep, "where": "", "real": rep, "witness": describe(s)}); continue
        bad = "diverged" if "REPLAY-DIVERGED" in out else "rc %s" % rc if rc != 0 else validate(witfmt(s), out, r["real"])
        if bad and r["real"] and "DIVERGED" in out: continue    # rounding took another branch
        if bad: disagree.append({"entry": r["entry"], "what": bad, "witness": describe(s)})
        else: nval += 1
    t4 = time.time()
    tot = lambda f: sum(f(r) for r in reports)
    missing = []
    for r in reports:
        want = list(byname[r["entry"]].get("covers", [])) + [c[7:] for c in r["covers"] if c.startswith("expect:")]
        lost = [c for c in want if c not in r["covers"]]
        if not lost: continue
        # every path explored, none cut, none undecided: the outcome is impossible for every input within the bounds
        if r["complete"] and not r["cuts"] and not r["violations"] and not r["assert_unknown"] and not r["feas_unknown"] and not r["crash"] and not unreach(native, r["entry"], lost, seed):
            os.makedirs(rdir, exist_ok=True); p = rdir + "/%s_u%d.witness" % (r["entry"], len(viol)); m = "outcome unreachable for every input: " + ", ".join(lost[:6])
            with open(p, "w") as f: f.write("# property=%s entry=%s\n# engine: %s\n# (unreachable in every explored path; 200 random runs of the real code never reach it either)\n" % (pid, r["entry"], m))
            viol.append({"path": p, "entry": r["entry"], "kind": "unreachable", "msg": m, "where": "", "real": "200 random runs of the real code never reach it either", "witness": "all"})
        else: missing += ["%s:%s" % (r["entry"], c) for c in lost]
    fns = {}
    for r in reports:
        for k, n in r["functions"].items(): fns[k] = fns.get(k, 0) + n
    cuts = {}
    for r in reports:
        for k, n in r["cuts"].items(): cuts[k] = cuts.get(k, 0) + n
    asserts = {}
    for r in reports:
        for k, (a, b) in r["asserts"].items(): x = asserts.setdefault(k, [0, 0]); x[0] += a; x[1] += b
    exhaustive = all(r["complete"] for r in reports) and not [c for c in cuts if not c.startswith("bound:")] and tot(lambda r: r["assert_unknown"]) == 0
    samples = [{"entry": r["entry"], "path_inputs": describe(s)} for r in reports for s in r["samples"][:1]][:12]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "coverage": {
              "states": tot(lambda r: r["paths"]["ok"] + r["paths"]["violation"] + r["paths"]["cut"]), "transitions": tot(lambda r: r["decisions"]), "traces_validated_against_impl": nval, "samples": samples, "exhaustive": exhaustive,
              "meaning": "states: complete symbolic paths (each stands for every input satisfying its path condition); transitions: symbolic decisions (branches, scheduling choices, concretisations, assertions) taken by the engine; exhaustive: every path within the bounds was explored and every assertion on it decided",
              "bounds": cfg.get("bounds", ""), "entries": [{k: r[k] for k in ("entry", "real", "round", "overflow", "complete", "crash", "paths", "instructions", "solver", "assert_unknown", "feas_unknown", "covers", "wall_s", "throws")} | {"bounds": byname[r["entry"]].get("bounds", "")} for r in reports],
              "asserts": {k: {"constant_on_path": a, "discharged_by_solver": b} for k, (a, b) in asserts.items()},
              "queries": tot(lambda r: r["solver"]["queries"]), "queries_unsat": tot(lambda r: r["solver"]["unsat"]), "queries_sat": tot(lambda r: r["solver"]["sat"]), "queries_unknown": tot(lambda r: r["solver"]["unknown"]), "solver_time_s": round(tot(lambda r: r["solver"]["time_s"]), 2),
              "functions_encoded": sorted(fns), "functions_encoded_count": len(fns), "ir_instructions_executed": tot(lambda r: r["instructions"]), "source_files": len(group_sources(cfg["sources"])),
              "paths_cut": cuts, "unconfirmed_counterexamples": unconf, "engine_vs_real_disagreements": disagree, "known_findings_hit": knownhit,
              "time": {"compile_s": round(t1 - t0, 2), "engine_s": round(t2 - t1, 2), "native_link_s": round(t3 - t2, 2), "replay_s": round(t4 - t3, 2)}},
          "assumptions": cfg.get("assumptions", []) + ["IR produced by clang 18 -O0 plus scalar cleanup passes stands for the source; z3 4.8 is trusted for unsat answers", "library code (libstdc++ out-of-line parts, FFTW, Boost.Thread) is modelled in /verif/runtime and /verif/shadow"]}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if not only:
        with open(VERIF + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    for r in reports:
        c = r["paths"]; print("%-34s paths ok %d viol %d cut %d infeas %d merged %d | queries %d (%.1fs, unknown %d) | %.1fs%s" % (r["entry"], c["ok"], c["violation"], c["cut"], c["infeasible"], c.get("merged_schedules", 0), r["solver"]["queries"], r["solver"]["time_s"], r["solver"]["unknown"], r["wall_s"], "" if r["complete"] else " INCOMPLETE " + r["crash"]))
        if r["unknown_asserts"]: print("   undecided:", r["unknown_asserts"])
        if "-v" in sys.argv: print("   covers:", r["covers"]); print("   asserts:", r["asserts"])
    if cuts: print("cut paths:", cuts)
    for u in unconf: print("UNCONFIRMED (not reproduced by the real code):", json.dumps(u)[:900])
    for d in disagree: print("DISAGREEMENT engine/real:", json.dumps(d)[:600])
    print("functions encoded %d; replayed paths agreeing %d of %d; compile %.1fs engine %.1fs link %.1fs replay %.1fs" % (len(fns), nval, len(todo), t1 - t0, t2 - t1, t3 - t2, t4 - t3))
    for (en, ms, d) in known:
        if not only: print("KNOWN-FINDING: property=%s %s" % (pid, d))
    for v in viol:
        print("violation in %s: %s: %s\n   at %s\n   real code: %s\n   inputs: %s" % (v["entry"], v["kind"], v["msg"], v["where"][:600], v["real"], v["witness"]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, viol[0]["path"])); return 1
    if missing: print("VACUOUS: never reached: " + ", ".join(missing)); return 2
    if any(r["crash"] for r in reports): return 2
    print("OK property=%s held on everything explored%s" % (pid, "" if exhaustive else " (not exhaustive within the bounds: see evidence)")); return 0
def replay(path):
    txt = open(path).read(); m = re.search(r"property=(\S+) entry=(\S+)", txt); pid, entry = m.group(1), m.group(2)
    hfile, hsrc, cfg = parse_harness(pid); pool = ThreadPoolExecutor(JOBS)
    work, ir, link_native, _ = compile_all(pid, hfile, cfg, pool); exe = link_native()
    w = work + "/w.txt"; open(w, "w").write("\n".join(l for l in txt.splitlines() if not l.startswith("#")) + "\n")
    rc, out = native_run(exe, entry, w); print(txt.split("\nI")[0]); print(out); print("exit", rc); shutil.rmtree(work, ignore_errors=True)
    return 0 if rc == 0 else 1
if __name__ == "__main__":
    try: sys.exit(main())
    except BuildError as e: print("BUILD-ERROR", e); sys.exit(2)
