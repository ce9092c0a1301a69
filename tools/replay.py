#!/usr/bin/env python3
"""Replays a recorded counterexample against the natively compiled code of /repo."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
v = json.load(open(sys.argv[1])); work = tempfile.mkdtemp(prefix="sxreplay.")
try:
    b = sxlib.build_native(sxlib.build_ir(v["harness"], v["tree"], work), work)
    rc, out, _ = sxlib.replay(b.native, v["trace"], v["params"], v.get("only", v["check"].split(":")[0]), work)
    print(out); print("exit", rc); sys.exit(0 if rc == 0 else 1)
finally: shutil.rmtree(work, ignore_errors=True)
