#!/usr/bin/env python3
"""Driver: builds bitcode of the harness and of /repo's current sources, runs the symbolic
executor lsx on it, replays counterexamples natively, writes the evidence file."""
import os, sys, subprocess, hashlib, json, time, concurrent.futures as cf, shutil, re, tempfile, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LSX_REPO", "/repo")
SRC = REPO + "/src/lightspeed"
BUILD = os.environ.get("LSX_BUILD", VERIF + "/build")
LSX = BUILD + "/engine/lsx"
NCPU = int(os.environ.get("LSX_NCPU", 0)) or os.cpu_count() or 4
LLVM = "/usr/lib/llvm-18/bin/"
OPT = LLVM + "opt"
CXX = "clang++"
BASE = ["-std=c++11", "-DDEBUG", "-D_DEBUG", "-include", "exception", "-fwrapv", "-fno-strict-aliasing",
        "-fno-delete-null-pointer-checks", "-fno-finite-loops", "-ffp-contract=off", "-w", "-fno-crash-diagnostics"]
BCFLAGS = BASE + ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-pie", "-emit-llvm", "-c"]
NATFLAGS = BASE + ["-O1", "-g", "-ftrivial-auto-var-init=pattern"]
NATSAN = ["-fsanitize=address,unreachable,return", "-fno-sanitize-recover=all"]

def sh(cmd, **kw):
    # a tool that crashes (not: reports an error) is given two more chances
    for n in range(3):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
        if r.returncode >= 0 and r.returncode < 128 and "PLEASE ATTACH" not in r.stdout and "PLEASE submit a bug report" not in r.stdout: break
        time.sleep(1 + n)
    return r

class BuildError(Exception): pass

def build_engine():
    srcs = sorted(f for f in os.listdir(VERIF + "/engine"))
    h = hashlib.sha256()
    for f in srcs: h.update(f.encode()); h.update(open(f"{VERIF}/engine/{f}", "rb").read())
    stamp = BUILD + "/engine/stamp"
    if os.path.exists(LSX) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return
    os.makedirs(BUILD + "/engine", exist_ok=True)
    r = sh(["make", "-j%d" % NCPU, "-C", VERIF + "/engine", "OUT=" + BUILD + "/engine"])
    if r.returncode: raise BuildError("engine build failed:\n" + r.stdout[-3000:])
    open(stamp, "w").write(h.hexdigest())

PLATFORM = "#define HAVE_PIPE2 1\n#define HAVE_VFORK 1\n#define HAVE_DECL___ATOMIC_COMPARE_EXCHANGE 1\n"
def overlay():
    """platform.h is generated by the project's Makefile and ignored by git: supply it when it is missing."""
    if os.path.exists(SRC + "/platform.h"): return []
    os.makedirs(BUILD, exist_ok=True)
    p = BUILD + "/platform.h"; open(p, "w").write(PLATFORM)
    y = BUILD + "/overlay.yaml"
    open(y, "w").write(json.dumps({"version": 0, "roots": [{"name": SRC, "type": "directory", "contents": [{"name": "platform.h", "type": "file", "external-contents": p}]}]}))
    return ["-ivfsoverlay", y]

def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(SRC):
        ds.sort()
        if "windows" in d: continue
        for f in sorted(fs):
            if f.endswith((".h", ".cpp", ".tcc", ".c")):
                h.update((d + "/" + f).encode()); h.update(open(d + "/" + f, "rb").read())
    h.update(" ".join(BCFLAGS).encode())
    return h.hexdigest()[:24]

def lib_sources():
    out = []
    for d, ds, fs in os.walk(SRC):
        if "/windows" in d: continue
        out += [d + "/" + f for f in fs if f.endswith(".cpp")]
    return sorted(out)

def nm(path):
    r = sh([LLVM + "llvm-nm", "--format=posix", path]); defd, und, weakund = set(), set(), set()
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) < 2: continue
        if p[1] in "TDBRCGSWVu": defd.add(p[0])
        elif p[1] == "U": und.add(p[0])
    strong = set(l.split()[0] for l in r.stdout.splitlines() if len(l.split()) >= 2 and l.split()[1] in "TDBRCGS")
    return defd, und, strong

def build_lib():
    """All library sources to bitcode; returns [(src, bc, defined, undefined)]"""
    key = tree_hash(); d = f"{BUILD}/lib-{key}"; done = d + "/index.json"
    if os.path.exists(done):
        try: return [(a, b, set(c), set(e)) for a, b, c, e in json.load(open(done))]
        except Exception: pass
    os.makedirs(d, exist_ok=True); ov = overlay(); dev = os.environ.get("LSX_STOP")      # development: sources which did not change are not compiled again
    if dev:
        os.makedirs(BUILD + "/objs", exist_ok=True); h = hashlib.sha256(" ".join(BCFLAGS).encode())
        for q, ds, fs in sorted(os.walk(SRC)):
            for f in sorted(fs):
                if not f.endswith(".cpp"): h.update((q + f).encode() + open(q + "/" + f, "rb").read())
        hk = h.hexdigest()
    def one(s):
        o = d + "/" + s[len(SRC) + 1:].replace("/", "_") + ".bc"; t = o + ".%d.tmp" % os.getpid()
        k = dev and BUILD + "/objs/" + hashlib.sha256((hk + s).encode() + open(s, "rb").read()).hexdigest()[:24]
        if k and os.path.exists(k): shutil.copy(k, o); a, b, c = nm(o); return (s, o, a, b)
        r = sh([CXX] + BCFLAGS + ov + [s, "-o", t])
        if r.returncode: return (s, None, r.stdout)
        if k: shutil.copy(t, k)
        os.rename(t, o); a, b, c = nm(o); return (s, o, a, b)
    with cf.ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, lib_sources()))
    bad = [r for r in res if r[1] is None]
    for b in bad: print("note: does not compile:", b[0], b[2][-500:], file=sys.stderr)
    res = [r for r in res if r[1]]
    tmp = done + ".%d.tmp" % os.getpid()
    json.dump([[a, b, sorted(c), sorted(e)] for a, b, c, e in res], open(tmp, "w")); os.rename(tmp, done)
    # keep the build directory small: drop other versions of the library
    for x in os.listdir(BUILD):
        if x.startswith("lib-") and x != "lib-" + key and time.time() - os.path.getmtime(BUILD + "/" + x) > 3600: shutil.rmtree(BUILD + "/" + x, ignore_errors=True)
    return res

def defs_of(job, tier):
    return ["-D%s=%s" % (k, v) for k, v in sorted({**job.get("defs", {}), **job.get(tier, {}).get("defs", {})}.items())]

def build_job(job, tier, lib, work):
    """compile + link one harness; returns path of the linked bitcode and the library sources used"""
    src = f"{VERIF}/harness/{job['src']}"; o = work + "/h.bc"
    r = sh([CXX] + BCFLAGS + overlay() + ["-I" + VERIF + "/rt", "-I" + REPO + "/src"] + defs_of(job, tier) + job.get("cflags", []) + [src, "-o", o])
    if r.returncode: raise BuildError(f"harness {job['src']} does not compile against the current tree:\n" + "\n".join([l for l in r.stdout.splitlines() if "error:" in l][:12])[:3000])
    m = work + "/m.bc"
    r = sh([CXX] + BCFLAGS + ["-I" + VERIF + "/rt", VERIF + "/rt/models.cpp", "-o", m])
    if r.returncode: raise BuildError(r.stdout[-3000:])
    objs = [o, m]; used = []
    for extra in job.get("models", []):
        e = work + "/" + extra + ".bc"
        r = sh([CXX] + BCFLAGS + overlay() + ["-I" + VERIF + "/rt", "-I" + REPO + "/src"] + defs_of(job, tier) + [f"{VERIF}/rt/{extra}", "-o", e])
        if r.returncode: raise BuildError(r.stdout[-3000:])
        objs.append(e)
    defd, und = set(), set()
    for x in objs: a, b, c = nm(x); defd |= a; und |= b
    und -= defd
    skip = set(job.get("skip_src", []))
    prov = {}
    for i, (s, b, c, e) in enumerate(lib):
        if any(s.endswith(k) for k in skip): continue
        for sym in c: prov.setdefault(sym, i)
    todo = list(und); seen = set()
    while todo:
        sym = todo.pop()
        if sym in defd or sym not in prov: continue
        i = prov[sym]
        if i in seen: continue
        seen.add(i); used.append(lib[i][0]); objs.append(lib[i][1]); defd |= lib[i][2]; todo += [x for x in lib[i][3] if x not in defd]
    for s, b, c, e in lib:
        if any(s.endswith(k) for k in job.get("force_src", [])) and b not in objs: objs.append(b); used.append(s)
    L = work + "/l.bc"
    # the models override library definitions
    ov = []
    r = sh([LLVM + "llvm-link", objs[0]] + objs[2:] + ["--override=" + objs[1], "-o", L])
    if r.returncode: raise BuildError("link: " + r.stdout[-3000:])
    P = work + "/p.bc"
    keep = job["entry"]
    r = sh([LLVM + "opt", "-passes=internalize,globaldce" + ("" if job.get("mt") else ",function(simplifycfg)"), "-internalize-public-api-list=" + keep, L, "-o", P])
    if r.returncode: raise BuildError("opt: " + r.stdout[-3000:])
    if job.get("mt"):
        Q = work + "/q.bc"
        r = sh([LSX, "instrument", P, Q])
        if r.returncode: raise BuildError("instrument: " + r.stdout[-3000:])
        return Q, used, P
    return P, used, P

def build_native(job, tier, work, used, bc):
    exe = work + "/native"
    if os.path.exists(exe): return exe
    if job.get("mt"):
        # the very same instrumented bitcode, lowered to machine code, with a cooperative scheduler
        # heap accesses are checked by AddressSanitizer (not the stacks: the coroutines switch them)
        r = sh([OPT, "-passes=forceattrs", "-force-attribute=sanitize_address", bc, "-o", work + "/native.bc"])
        if r.returncode: raise BuildError("native(mt): " + r.stdout[-3000:])
        r = sh([CXX, "-O1", "-w", "-g", "-no-pie", "-rdynamic", "-fsanitize=address", "-mllvm", "-asan-stack=0", "-mllvm", "-asan-globals=0", work + "/native.bc", "-x", "c++", VERIF + "/rt/replay.cpp", "-I" + VERIF + "/rt", "-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-ldl", "-lpthread"])
        if r.returncode: raise BuildError("native(mt): " + r.stdout[-3000:])
        return exe
    objs = []; srcs = [f"{VERIF}/harness/{job['src']}", VERIF + "/rt/replay.cpp"] + used + [f"{VERIF}/rt/{e}" for e in job.get("models", [])]
    def one(a):
        i, s = a; o = f"{work}/n{i}.o"
        r = sh([CXX] + NATFLAGS + NATSAN + overlay() + ["-I" + VERIF + "/rt", "-I" + REPO + "/src"] + defs_of(job, tier) + job.get("cflags", []) + ["-c", s, "-o", o])
        return o, r
    with cf.ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, enumerate(srcs)))
    for o, r in res:
        if r.returncode: raise BuildError("native: " + r.stdout[-3000:])
    r = sh([CXX] + NATSAN + ["-rdynamic"] + [o for o, _ in res] + ["-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-ldl", "-lpthread"])
    if r.returncode: raise BuildError("native link: " + r.stdout[-3000:])
    return exe

def replay(exe, entry, case, work, kind, timeout=20):
    """-> (reproduced, description)"""
    last = ""
    for fill in ("170", "0", "255", "1"):
        env = dict(os.environ, ASAN_OPTIONS=f"detect_leaks=0:exitcode=99:max_malloc_fill_size=1000000:malloc_fill_byte={fill}:max_free_fill_size=4096:free_fill_byte=221:detect_stack_use_after_return=1:alloc_dealloc_mismatch=0:allocator_may_return_null=0:handle_abort=0:max_allocation_size_mb=4096:print_legend=0",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", MALLOC_PERTURB_=str(255 - int(fill)))
        d = tempfile.mkdtemp(dir=work)
        try:
            p = subprocess.run([exe, entry, case], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=d)
            rc, err = p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, err = "timeout", (e.stderr or b"").decode(errors="replace")
        shutil.rmtree(d, ignore_errors=True)
        m = re.findall(r"^REPLAY (.*)$", err, re.M); msg = m[-1] if m else ""
        if rc == "timeout": return True, "does not terminate (native run exceeded %ds)" % timeout
        if rc == 78: return True, "KNOWN " + msg
        if rc in (0, 50, 51, 2): last = msg or f"exit {rc}"; continue
        san = re.findall(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", err)
        return True, (msg or (san[0] if san else f"native exit {rc}"))
    return False, last

def run_job(args):
    prop, job, tier, lib, workers, tl, root, known = args
    name = job["name"]; work = f"{root}/{name}"; os.makedirs(work, exist_ok=True)
    res = {"name": name, "job": job, "viol": [], "known": [], "unconfirmed": [], "error": None, "stats": None}
    try:
        bc, used, plain = build_job(job, tier, lib, work)
        o = work + "/out"; os.makedirs(o, exist_ok=True)
        cfg = {**job, **job.get(tier, {})}
        cmd = [LSX, "run", bc, "--entry", job["entry"], "--out", o, "--workers", str(workers), "--time", str(cfg.get("time", tl))]
        if os.environ.get("LSX_STOP"): cmd += ["--stop"]          # development: the first candidate is enough
        if "steps" in cfg: cmd += ["--max-steps", str(cfg["steps"])]
        if "preempt" in cfg: cmd += ["--preempt", str(cfg["preempt"])]
        if "spin" in cfg: cmd += ["--spin", str(cfg["spin"])]
        if "depth" in cfg: cmd += ["--depth", str(cfg["depth"])]
        if "qtime" in cfg: cmd += ["--qtime", str(cfg["qtime"])]
        for k in known: cmd += ["--known", k]
        t0 = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=cfg.get("time", tl) * 1.5 + 120)
        res["log"] = r.stdout[-3000:]
        if not os.path.exists(o + "/stats.json"): raise BuildError(f"lsx failed on {name} (rc {r.returncode}): " + r.stdout[-3000:])
        st = json.load(open(o + "/stats.json")); res["stats"] = st; res["used"] = used
        cases = sorted(f for f in os.listdir(o) if f.endswith(".case"))
        if cases:
            exe = build_native(job, tier, work, used, bc)
            confirmed = set(); conf_n = 0
            t1 = time.time()
            for c in cases:
                txt = open(o + "/" + c, errors="replace").read(); hd = dict(l.split(" ", 1) for l in txt.splitlines()[:5] if " " in l)
                sig = (hd.get("KIND"), hd.get("LABEL"), hd.get("LOC"))
                if sig in confirmed or conf_n > 12 or time.time() - t1 > 240: continue
                ok, desc = replay(exe, job["entry"], o + "/" + c, work, hd.get("KIND"))
                if ok: confirmed.add(sig); conf_n += 1
                rec = {"sig": list(sig), "desc": desc, "case": o + "/" + c, "stack": hd.get("STACK", "")}
                if ok and (sig[0] == "known" or desc.startswith("KNOWN")): res["known"].append(rec)
                elif ok: res["viol"].append(rec)
                else: res["unconfirmed"].append(rec)
            res["unconfirmed"] = [u for u in res["unconfirmed"] if tuple(u["sig"]) not in confirmed]
        for lab in job.get("reach", []):
            if st["reach"].get(lab, 0) == 0: res["error"] = f"vacuous: reachability witness '{lab}' was not reached"
        if not job.get("reach"): res["error"] = "no reachability witness declared"
    except BuildError as e: res["error"] = str(e)
    except subprocess.TimeoutExpired: res["error"] = "engine did not stop in time"
    return res

def main():
    sys.path.insert(0, VERIF)
    import checks
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        build_engine(); build_lib(); print("setup ok"); return 0
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
        elif a.startswith("--job="): only = a[6:]
    t0 = time.time()
    jobs = [dict(j) for j in checks.CHECKS[prop]["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    seen = {}
    for j in jobs:
        j.setdefault("name", j["entry"]); k = j["name"]; seen[k] = seen.get(k, 0) + 1
        if seen[k] > 1: j["name"] = f"{k}-{seen[k]}"
    jobs = [j for j in jobs if only is None or j["name"] == only]
    known = {}
    kf = VERIF + "/known_findings.json"
    for f in json.load(open(kf)).get("findings", []): known[f["id"]] = f
    mykn = [k for k, f in known.items() if f["property"] == prop and f["status"] == "known"]
    try:
        build_engine(); lib = build_lib()
    except BuildError as e:
        print("ERROR: " + str(e)); return 2
    budget = checks.CHECKS[prop].get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    root = tempfile.mkdtemp(prefix=f"lsx-{prop}-", dir=BUILD)
    par = min(len(jobs), 4); waves = (len(jobs) + par - 1) // par
    workers = max(1, NCPU // par + (1 if par > 1 else 0)); tl = budget / waves
    with cf.ThreadPoolExecutor(par) as ex:
        results = list(ex.map(run_job, [(prop, j, tier, lib, workers, tl, root, mykn) for j in jobs]))
    rc = 0; nviol = 0
    keep = VERIF + "/build/replay"; 
    for r in results:
        for u in r["unconfirmed"]: print(f"note: unconfirmed candidate in {r['name']}: {u['sig']} ({u['desc']}) -- not reproduced by the real code, not reported")
        for k in r["known"]:
            fid = k["sig"][1] if k["sig"][0] == "known" else k["desc"].split()[-1]
            if fid in mykn: print(f"KNOWN-FINDING: property={prop} {fid}: {known[fid]['what']}")
            else: r["viol"].append(k)
        for v in r["viol"]:
            nviol += 1; os.makedirs(keep, exist_ok=True); dst = f"{keep}/{prop}-{r['name']}-{nviol}.case"; shutil.copy(v["case"], dst)
            print(f"violation in harness {r['name']}: {v['sig'][0]}: {v['sig'][1]} at {v['sig'][2]}; native replay: {v['desc']}")
            print(f"   {v['stack'][:600]}")
            print(f"VIOLATION property={prop} replay={dst}"); rc = 1
    errs = [f"{r['name']}: {r['error']}" for r in results if r["error"]]
    if errs and rc == 0: rc = 2
    for e in errs: print("ERROR: " + e)
    # evidence
    S = [r["stats"] for r in results if r["stats"]]
    tot = lambda k: sum(s.get(k, 0) for s in S)
    fns = sorted({f[0] for s in S for f in s["functions"]})
    incomplete = {r["name"]: r["stats"]["incomplete_reasons"] for r in results if r["stats"] and (r["stats"]["incomplete"] or r["stats"]["timed_out"] or r["stats"]["dropped"])}
    for k, v in incomplete.items(): print(f"note: exploration of {k} was not exhaustive: {v}")
    for r in results:
        for l in sorted(set((r.get("log") or "").splitlines()))[:8]: print(f"   [{r['name']}] {l[:700]}")
    ck = checks.CHECKS[prop]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": int(tot("paths")), "transitions": int(tot("instructions")), "traces_validated_against_impl": int(sum(len(r["viol"]) + len(r["known"]) + len(r["unconfirmed"]) for r in results)),
                       "samples": [{"harness": r["name"], "bounds": {**r["job"].get("defs", {}), **r["job"].get(tier, {}).get("defs", {}), **{k: v for k, v in {**r["job"], **r["job"].get(tier, {})}.items() if k in ("preempt", "steps", "bounds")}},
                                    "paths": r["stats"]["paths"], "reached": r["stats"]["reach"]} for r in results if r["stats"]] or ["none"],
                       "explanation": "symbolic execution of the LLVM IR of the current sources; states = complete symbolic paths (each covers all inputs satisfying its path condition), transitions = IR instructions executed symbolically",
                       "exhaustive": not incomplete and not errs,
                       "harnesses": [r["name"] for r in results], "functions_encoded": len(fns), "functions": fns[:400], "repo_instructions_encoded": int(tot("repo_instructions_encoded")),
                       "solver_queries": int(tot("queries")), "solver_calls": int(tot("solver_calls")), "sat": int(tot("sat")), "unsat": int(tot("unsat")), "unknown": int(tot("unknown")), "solver_seconds": round(tot("solver_s"), 2),
                       "assertions_checked": int(tot("asserts")), "assertions_with_symbolic_condition": int(tot("asserts_symbolic")), "schedule_choice_points": int(tot("sched_choices")),
                       "not_exhaustive": incomplete, "unconfirmed_candidates": [u["sig"] for r in results for u in r["unconfirmed"]], "bounds": ck.get("bounds", "")},
          "assumptions": ck.get("assumptions", []) + checks.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": nviol}
    evdir = os.environ.get("LSX_EVIDENCE") or VERIF + "/evidence"
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(f"{evdir}/{prop}.json", "w"), indent=1)
    if not os.environ.get("LSX_KEEP"): shutil.rmtree(root, ignore_errors=True)
    else: print("kept", root)
    print(f"{prop} [{tier}]: {'OK' if rc == 0 else 'FAILED'}; paths {tot('paths')}, assertions {tot('asserts')}, queries {tot('queries')}, solver {tot('solver_s'):.1f}s, wall {time.time()-t0:.1f}s")
    return rc

if __name__ == "__main__":
    sys.exit(main())
