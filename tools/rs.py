"""Rust: Kani (CBMC) decides harnesses appended to the real lib.rs; the C library and the futures queue are played by harness/rs."""
import json, os, re, shutil, subprocess, tempfile, time
import concurrent.futures as cf
import sxlib
from sxlib import sh, Err, VERIF, REPO
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")

def header(work):
    """what bindgen makes of watcher-c.h: its constants and its struct, from clang's own account of the header"""
    h = REPO + "/watcher-c/include/wtr/watcher-c.h"
    ast = json.loads(sh(["clang-18", "-x", "c", "-fsyntax-only", "-Xclang", "-ast-dump=json", h]))
    ty = {"int8_t": "i8", "uint8_t": "u8", "int16_t": "i16", "uint16_t": "u16", "int32_t": "i32", "uint32_t": "u32", "int64_t": "i64", "uint64_t": "u64", "int": "i32", "unsigned int": "u32", "char": "i8", "signed char": "i8", "long": "i64", "long long": "i64", "bool": "bool", "_Bool": "bool"}
    def rt(q):
        q = q.replace("const", "").replace("*", " * ").split(); q = " ".join(q)
        if q.endswith("*"): return "*const ::std::os::raw::c_char" if q.startswith("char") else "*mut ::std::os::raw::c_void"
        return ty[q]
    names = []; out = []
    for d in ast["inner"]:
        if d["kind"] == "VarDecl" and d["name"].startswith("WTR_"): names.append((d["name"], rt(d["type"]["qualType"])))
        if d["kind"] == "EnumDecl":
            for e in d.get("inner", []): names.append((e["name"], "u32"))
        if d["kind"] == "RecordDecl" and d.get("name") == "wtr_watcher_event":
            fs = [(f["name"], rt(f["type"]["qualType"])) for f in d["inner"] if f["kind"] == "FieldDecl"]
            out.append("#[repr(C)] #[derive(Debug, Copy, Clone)] pub struct wtr_watcher_event { %s }" % ", ".join("pub %s: %s" % f for f in fs))
    c = work + "/k.c"
    open(c, "w").write('#include "%s"\n#include <stdio.h>\nint main(void) { %s }\n' % (h, " ".join('printf("%s %%lld\\n", (long long)%s);' % (n, n) for n, _ in names)))
    sh(["clang-18", c, "-o", work + "/k"]); vals = dict(l.split() for l in sh([work + "/k"]).splitlines())
    out += ["pub const %s: %s = %s;" % (n, t, vals[n]) for n, t in names]
    v = "::std::os::raw::c_void"; ch = "::std::os::raw::c_char"
    out.append("pub type wtr_watcher_callback = ::std::option::Option<unsafe extern \"C\" fn(event: wtr_watcher_event, context: *mut %s)>;" % v)
    out.append("pub unsafe extern \"C\" fn wtr_watcher_open(path: *const %s, callback: wtr_watcher_callback, context: *mut %s) -> *mut %s { sx::open(path, callback, context) }" % (ch, v, v))
    out.append("pub unsafe extern \"C\" fn wtr_watcher_close(watcher: *mut %s) -> bool { sx::close_(watcher) }" % v)
    return "\n".join(out) + "\n"

def crate(d):
    src = VERIF + "/harness/rs"
    shutil.copytree(src, d, dirs_exist_ok=True)
    for r, _, fs in os.walk(REPO + "/watcher-rs/src"):
        for f in fs:
            if f == "main.rs": continue
            o = os.path.join(d, "src", os.path.relpath(os.path.join(r, f), REPO + "/watcher-rs/src")); os.makedirs(os.path.dirname(o), exist_ok=True); shutil.copy(os.path.join(r, f), o)
    open(d + "/src/lib.rs", "a").write("\n" + open(src + "/sx.rs").read()); shutil.copy(src + "/names.rs", d + "/src/names.rs")
    shutil.copy("/opt/veriftools/crates.Cargo.lock", d + "/Cargo.lock")
    open(d + "/watcher_c.rs", "w").write(header(d))

def kani(d, h, secs, play=False):
    t = time.time()
    cmd = ["cargo", "kani", "-Z", "stubbing"] + (["-Z", "concrete-playback", "--concrete-playback=print"] if play else []) + ["--harness", "sx::" + h] + ["--features", "serde"]
    try: r = subprocess.run(["prlimit", "--as=%d" % (12 << 30)] + cmd, cwd=d, env=dict(ENV, CARGO_TARGET_DIR=d + "/t-" + h), capture_output=True, text=True, errors="replace", timeout=secs)
    except subprocess.TimeoutExpired: return h, None, "timed out", time.time() - t
    return h, r.returncode, r.stdout + r.stderr, time.time() - t

def native(d, h, vals):
    env = dict(ENV, CARGO_TARGET_DIR=d + "/t-native", RUSTFLAGS="--cfg sx_replay -Awarnings")
    b = subprocess.run(["cargo", "build", "--bin", "replay"] + ["--features", "serde"], cwd=d, env=env, capture_output=True, text=True, errors="replace", timeout=600)
    if b.returncode: return None, b.stdout + b.stderr
    try: r = subprocess.run([d + "/t-native/debug/replay", h] + [",".join(map(str, v)) for v in vals], capture_output=True, text=True, errors="replace", timeout=30, cwd=d)
    except subprocess.TimeoutExpired: return 124, "SX-HANG"
    return r.returncode, r.stdout + r.stderr

def run(prop, spec, tier):
    t0 = time.time(); work = tempfile.mkdtemp(prefix="sxwork."); d = work + "/crate"
    try:
        crate(d); hs = spec["harnesses"]
        subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=d, env=ENV, capture_output=True)  # settles Cargo.lock before the parallel runs
        with cf.ThreadPoolExecutor(4) as ex: rs = list(ex.map(lambda h: kani(d, h, 350 if tier == "quick" else 3000), hs))
        errors = []; viol = []; per = []; checks = 0; solver = 0.0; vccs = 0; conds = {}
        for h, rc, out, secs in rs:
            m = re.search(r"\*\* (\d+) of (\d+) failed", out); n = int(m.group(2)) if m else 0
            solver += sum(float(x) for x in re.findall(r"Runtime Solver: ([\d.e-]+)s", out)); vccs += sum(int(x) for x in re.findall(r"(\d+) remaining after simplification", out)); checks += n
            for a in re.findall(r'Status: (\w+)\s*\n\s*- Description: "+(rs-[a-z-]+:[a-z-]+)"', out): conds[a[1]] = a[0]
            per.append({"case": "sx::" + h, "secs": round(secs, 1), "checks": n})
            if rc is None or not m: errors.append("%s: no verdict: %s" % (h, out[-1500:])); continue
            if "VERIFICATION:- SUCCESSFUL" in out:
                if not re.search(r"rs-[a-z-]+:[a-z-]+", out): errors.append(h + ": vacuous, no check reached")
                continue
            failed = [f for f in re.findall(r'Failed Checks: (.*)', out)]
            mine = [f for f in failed if f.startswith(spec["slug"] + ":")]
            if any("unwinding" in f or "not currently supported" in f or "unsupported" in f for f in failed): errors.append(h + ": cannot be decided: " + "; ".join(failed)[:600])
            others = [f for f in failed if re.match(r"rs-[a-z]+:", f) and f not in mine]
            if not mine and others and not [f for f in failed if f not in others]: continue  # another property's
            if viol: break
            left = (850 if tier == "quick" else 7000) - (time.time() - t0)
            if left < 30: errors.append(h + ": fails, no time left to replay: " + "; ".join(failed)[:300]); continue
            done = False; _, prc, out2, _ = kani(d, h, min(left, 400), True); out += out2 or ""
            for pb in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
                vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d, ]*)\]", pb)]
                code, o = native(d, h, vals)
                if code is None: errors.append(h + ": replay does not build: " + o[-800:]); done = True; break
                hit = re.search(r"SX-CHECK-FAIL (\S+)", o)
                if (hit and hit.group(1).startswith(spec["slug"] + ":")) or (not hit and code not in (0, 7)): viol.append((h, mine or failed, vals, code, o)); done = True; break
            if not done: errors.append("%s: counterexample not reproduced natively: %s" % (h, "; ".join(failed)[:600]))
        ev = {"property": prop, "tier": tier, "seed": sxlib.SEED, "level": "model_checking",
              "coverage": {"states": max(1, vccs), "transitions": max(1, checks), "traces_validated_against_impl": len(viol), "samples": [p["case"] for p in per] or ["none"], "explanation": spec["explain"], "verification_conditions": vccs, "checks_decided": checks, "solver_seconds": round(solver, 2), "functions_encoded": ["watcher-rs/src/lib.rs: every function reachable from Watch::try_new, Watch::close, Drop, Stream::poll_next and the C callback"], "own_checks": conds, "bounds": spec["bounds"], "cases": per, "exhaustive": not errors},
              "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(VERIF + "/evidence", exist_ok=True); json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
        if viol:
            h, f, vals, code, o = viol[0]; rd = sxlib.BUILD + "/replays/" + prop; os.makedirs(rd, exist_ok=True); rp = rd + "/violation.json"
            json.dump({"property": prop, "rust": h, "values": vals, "check": f, "native_exit": code, "native_output": o[-2000:]}, open(rp, "w"), indent=1)
            print("; ".join(f)[:500]); print("native replay: exit %s: %s" % (code, o[-300:].strip())); print("VIOLATION property=%s replay=%s" % (prop, rp)); return 1
        if errors:
            for e in errors[:6]: print("ERROR: " + e)
            return 2
        print("OK property=%s tier=%s checks=%d solver=%.1fs wall=%.1fs" % (prop, tier, checks, solver, time.time() - t0)); return 0
    finally:
        if os.environ.get("SX_KEEP"): print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
