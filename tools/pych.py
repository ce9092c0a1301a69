"""Python: CrossHair (z3) decides the functions of harness/py/sx_py.py over the real module; counterexamples are replayed in plain Python."""
import json, os, re, subprocess, sys, tempfile, time, shutil
import concurrent.futures as cf
import sxlib
from sxlib import sh, VERIF, REPO
D = VERIF + "/harness/py"
def layout(work):
    """the module's struct and the header's, field by field (sizes, offsets, kinds)"""
    h = REPO + "/watcher-c/include/wtr/watcher-c.h"; ast = json.loads(sh(["clang-18", "-x", "c", "-fsyntax-only", "-Xclang", "-ast-dump=json", h]))
    fs = [f["name"] for d in ast["inner"] if d["kind"] == "RecordDecl" and d.get("name") == "wtr_watcher_event" for f in d["inner"] if f["kind"] == "FieldDecl"]
    c = work + "/l.c"; open(c, "w").write('#include "%s"\n#include <stddef.h>\n#include <stdio.h>\nint main(void) { struct wtr_watcher_event e; %s printf("%%zu\\n", sizeof e); }\n' % (h, " ".join('printf("%s %%zu %%zu\\n", offsetof(struct wtr_watcher_event, %s), sizeof e.%s);' % (f, f, f) for f in fs)))
    sh(["clang-18", c, "-o", work + "/l"]); want = sh([work + "/l"])
    got = sh([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r)\nimport sx_py, ctypes\nS = sx_py.STRUCT[0]\nfor f in S._fields_: d = getattr(S, f[0]); print(f[0], d.offset, d.size)\nprint(ctypes.sizeof(S))" % D])
    return want, got
def one(f, secs):
    t = time.time(); env = dict(os.environ, SX_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
    try: r = subprocess.run(["prlimit", "--as=%d" % (8 << 30), "python3-vt", "-B", "-m", "crosshair", "check", "--report_all", "--per_condition_timeout", str(secs), "sx_py." + f], cwd=D, env=env, capture_output=True, text=True, errors="replace", timeout=secs + 60)
    except subprocess.TimeoutExpired: return f, "timed out", time.time() - t
    return f, r.stdout + r.stderr, time.time() - t
def run(prop, spec, tier):
    t0 = time.time(); work = tempfile.mkdtemp(prefix="sxwork."); errors = []; viol = []; per = []; paths = 0
    try:
        if spec.get("layout"):
            want, got = layout(work)
            if want != got: viol.append(("layout", "the struct differs from the header's", "header:\n%smodule:\n%s" % (want, got)))
        with cf.ThreadPoolExecutor(6) as ex: rs = list(ex.map(lambda f: one(f, 600 if tier == "quick" else 3000), spec["harnesses"]))
        for f, out, secs in rs:
            per.append({"case": f, "secs": round(secs, 1), "verdict": "confirmed over all paths" if "Confirmed over all paths" in out else out[-200:]})
            if "Confirmed over all paths" in out: continue
            m = re.search(r"error: (.*?) when calling (%s\(.*?\))(?: \(which|\n|$)" % f, out)
            if not m: errors.append("%s: no verdict: %s" % (f, out[-600:])); continue
            r = subprocess.run([sys.executable, "-B", "-c", "import sx_py\nfrom sx_py import *\nprint('SX-RESULT', %s)" % m.group(2)], cwd=D, env=dict(os.environ, SX_REPO=REPO), capture_output=True, text=True, errors="replace", timeout=60)
            o = r.stdout + r.stderr
            if r.returncode == 0 and "SX-RESULT True" in o: errors.append("counterexample not reproduced: %s: %s" % (m.group(2), m.group(1)))
            else: viol.append((f, m.group(2), o))
        ev = {"property": prop, "tier": tier, "seed": sxlib.SEED, "level": "model_checking",
              "coverage": {"states": max(1, len(per)), "transitions": max(1, len(per)), "traces_validated_against_impl": len(viol), "samples": per or ["none"], "explanation": spec["explain"], "functions_encoded": ["watcher-py/watcher/watcher.py: the whole module"], "bounds": spec["bounds"], "cases": per, "exhaustive": not errors},
              "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(VERIF + "/evidence", exist_ok=True); json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
        if viol:
            f, call, o = viol[0]; rd = sxlib.BUILD + "/replays/" + prop; os.makedirs(rd, exist_ok=True); rp = rd + "/violation.json"
            json.dump({"property": prop, "python": f, "call": call, "output": o[-2000:]}, open(rp, "w"), indent=1)
            print("%s: %s" % (spec["slug"], call)); print("plain replay:", o[-400:].strip()); print("VIOLATION property=%s replay=%s" % (prop, rp)); return 1
        if errors:
            for e in errors[:6]: print("ERROR: " + e)
            return 2
        print("OK property=%s tier=%s functions=%d wall=%.1fs" % (prop, tier, len(per), time.time() - t0)); return 0
    finally: shutil.rmtree(work, ignore_errors=True)
