#!/usr/bin/env python3
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib, specs
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else sxlib.TIER
    try: spec = specs.SPECS[prop]
    except KeyError: print("no such property", prop); return 2
    try:
        if "run" in spec: return spec["run"](prop, spec, tier)
        return sxlib.run_property(prop, spec, tier)
    except sxlib.Err as e: print("ERROR:", str(e)[:6000]); return 2
    except Exception: traceback.print_exc(); return 2
sys.exit(main())
