"""Driver: builds the engine and the harnesses from the current sources, runs the
symbolic executor over every case, replays what it reports (and a sample of what
it passes) against the natively compiled code, and writes evidence."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = os.cpu_count() or 4
TREES = {"devel": REPO + "/devel/include", "single": REPO + "/include"}
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")

class Err(Exception):
    pass

def sh(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, **kw)
    if r.returncode != 0:
        raise Err("command failed: %s\n%s%s" % (" ".join(cmd), r.stdout[-2000:], r.stderr[-3000:]))
    return r.stdout

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def atomic_build(out, fn):
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.%d" % (out, os.getpid(), time.monotonic_ns())
    fn(tmp)
    os.rename(tmp, out)
    return out

def engine():
    e = VERIF + "/engine"
    srcs = [e + "/expr.h", e + "/expr.cpp", e + "/sx.cpp"]
    out = BUILD + "/sx-" + fhash(srcs)
    return atomic_build(out, lambda t: sh(["g++", "-O2", "-std=c++17", "-w", "-I/usr/include/llvm-18", "-I/usr/include/llvm-c-18", e + "/expr.cpp", e + "/sx.cpp", "-o", t, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"]))

CXX = ["-std=c++17", "-fexceptions", "-fcxx-exceptions", "-Xclang", "-fignore-exceptions", "-fno-rtti", "-fno-access-control", "-w", "-fno-pic", "-fno-builtin"]
IRF = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only", "-emit-llvm", "-c", "-DSX_ENGINE=1"]
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-memory-accesses=0", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-memintrinsics=0"]
UBS = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow", "-fsanitize-trap=all"]

def model_bc():
    m = VERIF + "/model"
    srcs = [m + "/" + f for f in ("sx.h", "libc.c", "tsan.c", "libcxx.cpp", "threads.cpp")]
    out = BUILD + "/model-%s.bc" % fhash(srcs, str(IRF) + str(CXX))
    def go(t):
        d = tempfile.mkdtemp(prefix="sxm.")
        try:
            bcs = []
            for f in ("libc.c", "tsan.c", "libcxx.cpp", "threads.cpp"):
                o = d + "/" + f + ".bc"
                cc = ["clang-18", "-fno-builtin", "-w", "-fno-pic"] if f.endswith(".c") else ["clang++-18"] + CXX
                sh(cc + IRF + [m + "/" + f, "-o", o])
                bcs.append(o)
            sh(["llvm-link-18"] + bcs + ["-o", t])
        finally:
            shutil.rmtree(d)
    return atomic_build(out, go)

class Built:
    def __init__(self): self.bc = None; self.native = None; self.key = None; self.tree = None; self.h = None

def incs(tree):
    return ["-I" + TREES[tree], "-I" + REPO + "/watcher-c/include", "-I" + VERIF + "/harness/stubs"]

def irnorm(bc):
    s = sh(["opt-18", "-strip-debug", "-S", bc, "-o", "-"])
    s = re.sub(r'source_filename = .*|^; ModuleID.*$', "", s, flags=re.M)
    s = s.replace(TREES["devel"], "@T").replace(TREES["single"], "@T")
    return hashlib.sha256(s.encode()).hexdigest()

def build_ir(h, tree, work):
    """h: harness dict {src, flags, tsan, ub, libs}"""
    src = VERIF + "/harness/" + h["src"]
    name = h["src"].split(".")[0] + "-" + hashlib.md5(json.dumps([h, tree], sort_keys=True).encode()).hexdigest()[:8]
    fl = h.get("flags", []); fl = [f.replace("@REPO", REPO).replace("@TREE", TREES[tree]).replace("@VERIF", VERIF) for f in fl]
    b = Built(); b.tree = tree; b.h = h
    hb = work + "/" + name + ".h.bc"
    std = [] if not h.get("std") else ["-std=" + h["std"]]
    sh(["clang++-18"] + CXX + std + IRF + (TSAN if h.get("tsan") else []) + (UBS if h.get("ub") else []) + fl + incs(tree) + [src, "-o", hb])
    if "-fshort-wchar" in fl: # the models are compiled for another wchar_t, and are not used for it
        ll = hb + ".ll"; sh(["llvm-dis-18", hb, "-o", ll]); t = open(ll).read(); open(ll, "w").write(re.sub(r'(!"wchar_size", i32) 2', r"\1 4", t)); sh(["llvm-as-18", ll, "-o", hb]); os.remove(ll)
    cb = []
    for i, c in enumerate(h.get("c", [])):
        o = "%s/%s.c%d.bc" % (work, name, i); sh(["clang-18", "-w", "-fno-pic", "-fno-builtin", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-emit-llvm", "-c"] + h.get("cflags", []) + incs(tree) + [c.replace("@REPO", REPO), "-o", o]); cb.append(o)
    if cb: sh(["llvm-link-18", hb] + cb + ["-o", hb])
    b.key = irnorm(hb)
    b.bc = work + "/" + name + ".bc"
    sh(["llvm-link-18", hb, model_bc(), "-o", b.bc])
    b.name = name; b.fl = fl; b.std = std; b.src = src
    return b

def build_native(b, work):
    m = VERIF + "/model"; o = work + "/" + b.name + ".o"; t = work + "/" + b.name + ".thr.o"; n = work + "/" + b.name + ".nat.o"; ts = work + "/" + b.name + ".tsan.o"
    san = TSAN if b.h.get("tsan") else ["-fsanitize=address"]
    ub = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow", "-fno-sanitize-recover=all"] if b.h.get("ub") and not b.h.get("tsan") else []
    base = ["clang++-18"] + CXX + b.std + ["-g1", "-O1", "-c"]
    jobs = [base + san + ub + b.fl + incs(b.tree) + [b.src, "-o", o], base + [m + "/threads.cpp", "-o", t], ["clang++-18", "-std=c++17", "-w", "-O1", "-g1", "-c", m + "/native.cpp", "-o", n], ["clang-18", "-w", "-fno-pic", "-O1", "-c", m + "/tsan.c", "-o", ts]]
    co = []
    for i, c in enumerate(b.h.get("c", [])):
        co.append("%s/%s.c%d.o" % (work, b.name, i)); jobs.append(["clang-18", "-w", "-fno-pic", "-fno-builtin", "-g1", "-O1", "-c"] + b.h.get("cflags", []) + san + incs(b.tree) + [c.replace("@REPO", REPO), "-o", co[-1]])
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(sh, jobs))
    syms = set()
    for f in (o, t):
        for l in sh(["nm", "--defined-only", f]).splitlines():
            s = l.split()[-1]
            if s.startswith("sxm_"): syms.add(s)
    red = work + "/" + b.name + ".syms"
    open(red, "w").write("".join("%s %s\n" % (s[4:], s) for s in sorted(syms)))
    for f in [o, t] + co:
        sh(["objcopy", "--redefine-syms=" + red, f])
    out = work + "/" + b.name + ".native"
    sh(["clang++-18", "-no-pie", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=strndup"] + ([] if b.h.get("tsan") else ["-fsanitize=address"]) + (["-fsanitize=undefined"] if ub else []) + [o, t, n] + co + ([ts] if b.h.get("tsan") else []) + ["-o", out, "-lpthread"] + b.h.get("libs", []))
    b.native = out
    return b

def replay(native, trace, params, only, work, obs=False, timeout=25):
    d = tempfile.mkdtemp(prefix="rp.", dir=work)
    tf = d + "/trace"
    with open(tf, "w") as f:
        for name, w, v in trace: f.write("%s %s %s\n" % (name.replace(" ", "_"), w, v))
    env = dict(os.environ, SX_TRACE=tf, SX_ONLY=only, SX_PARAMS=",".join("%s=%s" % kv for kv in params.items()), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1")
    if obs: env["SX_OBS"] = d + "/obs"
    try:
        r = subprocess.run([native], env=env, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=d)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        rc, out = 124, "SX-HANG"
    ob = None
    if obs and os.path.exists(d + "/obs"):
        ob = [l.split() for l in open(d + "/obs").read().splitlines()]
    shutil.rmtree(d, ignore_errors=True)
    return rc, out, ob

def confirmed(v, rc, out):
    if rc in (0, 5, 7, 6): return False
    if v["kind"] == "check": return ("SX-CHECK-FAIL " + v["id"]) in out or rc in (99, 4, 124) or rc < 0
    return True

def run_case(case, b, work, eng, secs):
    out = tempfile.mktemp(prefix="res.", dir=work)
    cmd = [eng, b.bc, "-o", out, "-only", case["only"], "-preempt", str(case.get("preempt", 0)), "-seed", str(SEED), "-secs", str(secs), "-src", REPO + "/", "-samples", str(case.get("samples", 6)), "-steps", str(case.get("steps", 20000000))]
    for k, v in case.get("params", {}).items(): cmd += ["-P", "%s=%s" % (k, v)]
    try:
        r = subprocess.run(["prlimit", "--as=%d" % (12 << 30)] + cmd, capture_output=True, text=True, errors="replace", timeout=secs + 120)
    except subprocess.TimeoutExpired:
        return {"fatal": "engine timed out"}
    if r.returncode != 0 or not os.path.exists(out):
        return {"fatal": "engine exit %s: %s" % (r.returncode, (r.stdout + r.stderr)[-1500:])}
    res = json.load(open(out)); os.unlink(out)
    return res

def kfs(prop):
    """known findings listed for this property: {kf-id: text}"""
    d = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop: d[m.group(2)] = m.group(3).strip()
    return d

def run_property(prop, spec, tier):
    """spec: {cases:[{harness, params, preempt, covers}], bounds, assumptions}"""
    t0 = time.time(); work = tempfile.mkdtemp(prefix="sxwork."); errors = []; out_viol = []; notes = []
    try:
        eng = engine(); model_bc()
        cases = [dict(c) for c in spec["cases"] if tier in c.get("tiers", ("quick", "thorough"))]
        hs = {}
        for c in cases:
            c.setdefault("only", spec.get("slug", prop))
            hs[json.dumps(c["harness"], sort_keys=True)] = c["harness"]
        builds = {}
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {}
            for k, h in hs.items():
                for t in h.get("trees", ("devel", "single")):
                    futs[(k, t)] = ex.submit(build_ir, h, t, work)
            for kt, f in futs.items(): builds[kt] = f.result()
            same = {}
            todo = []
            for k, h in hs.items():
                seen = {}
                for t in h.get("trees", ("devel", "single")):
                    b = builds[(k, t)]
                    if b.key in seen: same[(k, t)] = seen[b.key]; continue
                    seen[b.key] = t; todo.append(b)
            nat = [ex.submit(build_native, b, work) for b in todo]
            jobs = []
            secs = 780 if tier == "quick" else 7200
            for c in cases:
                k = json.dumps(c["harness"], sort_keys=True)
                for t in c["harness"].get("trees", ("devel", "single")):
                    if (k, t) in same: continue
                    b = builds[(k, t)]
                    jobs.append((c, b, ex.submit(run_case, c, b, work, eng, secs)))
            for f in nat: f.result()
            results = [(c, b, f.result()) for c, b, f in jobs]
        tot = dict(paths=0, pathsCut=0, steps=0, forks=0, checksDecided=0, checksTrivial=0, queries=0, cacheHits=0, sat=0, unsat=0, unknown=0, solverSecs=0.0)
        fns = set(); lines = {}; kfhit = {}; validated = 0; samples = []; checks = {}; percase = []; solved = {}
        rj = []; anyviol = False
        for c, b, r in results:
            label = "%s[%s] %s" % (c["harness"]["src"], b.tree, c.get("params", {}))
            if "fatal" in r: errors.append(label + ": " + r["fatal"]); continue
            for k in tot: tot[k] += r[k]
            fns |= set(r["functions"])
            for k, v in r["checks"].items(): checks[k] = checks.get(k, 0) + v
            for k, v in r["checksSolved"].items(): solved[k] = solved.get(k, 0) + v
            for f, (h, n) in r["lines"].items():
                o = lines.get(f, [0, 0]); lines[f] = [max(o[0], h), max(o[1], n)]
            percase.append({"case": label, "paths": r["paths"], "queries": r["queries"], "secs": round(r["secs"], 2)})
            if r["engineErrors"]: errors.append(label + ": " + json.dumps(r["engineErrors"])[:1500])
            if r["incomplete"] and not r["violations"]: errors.append(label + ": exploration incomplete: " + r["incomplete"])
            if not r["violations"] and not r["engineErrors"]:
                for cvr in c.get("covers", []):
                    if not r["covers"].get(cvr): errors.append(label + ": vacuous: point '%s' never reached" % cvr)
                pass
            anyviol |= bool(r["violations"] or r["engineErrors"])
            for v in r["violations"]: rj.append(("viol", c, b, v))
            for kid, tr in r["kf"].items(): kfhit.setdefault(kid, ("kf", c, b, tr))
            for s in r["samples"]: rj.append(("sample", c, b, s))
        if not anyviol and not errors and not any(x.split(":")[0] == spec.get("slug", prop) for x in checks): errors.append("vacuous: no check of %s reached" % spec.get("slug", prop))
        def one(j):
            kind, c, b, x = j
            if kind == "viol": return replay(b.native, x["trace"], c.get("params", {}), c["only"], work)
            if kind == "sample": return replay(b.native, x["trace"], c.get("params", {}), c["only"], work, obs=True)
            return replay(b.native, x, c.get("params", {}), c["only"], work)
        kj = list(kfhit.items())
        with cf.ThreadPoolExecutor(NPROC) as ex:
            outs = list(ex.map(one, rj)); kouts = list(ex.map(one, [j for _, j in kj]))
        nsamp = 0
        for (kind, c, b, x), (rc, out, ob) in zip(rj, outs):
            if kind == "viol":
                if confirmed(x, rc, out):
                    out_viol.append((c, b, x, rc, out))
                else: errors.append("counterexample not reproduced natively (%s, %s: %s at %s): rc=%s %s" % (c["harness"]["src"], x["id"], x["msg"], x["stack"][:600], rc, out[-600:]))
            else:
                nsamp += 1
                want = [[k.replace(" ", "_"), v] for k, v in x["obs"]]
                if rc == 0 and ob == want: validated += 1
                else: errors.append("replay of a passing path diverges (%s %s): rc=%s %s obs %s" % (c["harness"]["src"], c.get("params"), rc, out[-800:], "equal" if ob == want else "differ: engine %s native %s" % (want[:400], (ob or [])[:400])))
                if len(samples) < 4: samples.append({"case": "%s[%s] %s" % (c["harness"]["src"], b.tree, c.get("params", {})), "inputs": ["%s=%s" % (t[0], t[2]) for t in x["trace"] if t[0] != "sched"][:40], "schedule": "".join(t[2] for t in x["trace"] if t[0] == "sched")[:80]})
        known = kfs(prop); kfconf = []
        for (kid, (_, c, b, tr)), (rc, out, _) in zip(kj, kouts):
            if kid not in known:
                v = {"kind": "check", "id": kid, "msg": "fails (this finding is not listed)", "stack": "", "trace": tr}
                if rc == 6: out_viol.append((c, b, v, rc, out))
                else: errors.append("unlisted finding %s not reproduced: rc=%s %s" % (kid, rc, out[-400:]))
            elif rc == 6: kfconf.append(kid)
            else: errors.append("known finding %s not reproduced natively: rc=%s %s" % (kid, rc, out[-400:]))
        ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
              "coverage": {"states": tot["forks"] + tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": validated, "samples": samples or ["none"],
                           "explanation": spec.get("explain", ""), "paths_completed": tot["paths"], "paths_cut_by_assumptions": tot["pathsCut"], "solver_queries": tot["queries"], "solver_cache_hits": tot["cacheHits"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "solver_seconds": round(tot["solverSecs"], 2),
                           "checks_decided_symbolically": tot["checksDecided"], "checks_reached": checks, "functions_encoded": sorted(f for f in fns if f)[:120], "repo_lines_executed": {f.replace(REPO, ""): "%d/%d" % tuple(v) for f, v in sorted(lines.items())},
                           "bounds": spec.get("bounds", ""), "cases": percase[:60], "trees_with_identical_ir_skipped": len(same), "known_findings_confirmed": kfconf, "exhaustive": not errors},
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(out_viol)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
        for kid in kfconf: print("KNOWN-FINDING: property=%s %s: %s" % (prop, kid, known[kid]))
        if out_viol:
            c, b, v, rc, out = out_viol[0]
            rd = BUILD + "/replays/%s" % prop; os.makedirs(rd, exist_ok=True)
            rp = rd + "/violation.json"
            json.dump({"property": prop, "harness": c["harness"], "tree": b.tree, "params": c.get("params", {}), "check": v["id"], "only": c["only"], "message": v["msg"], "where": v["stack"], "trace": v["trace"], "native_output": out[-3000:], "native_exit": rc, "how": "python3 tools/replay.py " + rp}, open(rp, "w"), indent=1)
            print("%s: %s (%s) at %s" % (v["id"], v["msg"], b.tree, v["stack"][:500])); print("native replay: exit %s: %s" % (rc, out[-500:].strip()))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if errors:
            for e in errors[:8]: print("ERROR: " + e[:2500])
            return 2
        print("OK property=%s tier=%s paths=%d queries=%d (unsat %d, sat %d) solver=%.1fs replayed=%d wall=%.1fs" % (prop, tier, tot["paths"], tot["queries"], tot["unsat"], tot["sat"], tot["solverSecs"], validated, time.time() - t0))
        return 0
    finally:
        if os.environ.get("SX_KEEP"): print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
