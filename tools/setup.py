#!/usr/bin/env python3
"""Builds the symbolic executor and the environment models."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
print(sxlib.engine()); print(sxlib.model_bc())
