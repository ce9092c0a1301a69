#!/usr/bin/env python3
"""Compares the library models with the real library (not a property of the watcher)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
def case(h, **p): return dict(harness=dict(src=h, trees=("devel",)), params=p, samples=100000, covers=[])
rc = sxlib.run_property("M00", dict(slug="model", cases=[case("h_model.cpp", n=5, m=0), case("h_model.cpp", n=3, m=3)]), "quick")
e = sxlib.VERIF + "/evidence/M00.json"
if os.path.exists(e): os.unlink(e)
sys.exit(rc)
