#!/usr/bin/env python3
"""Builds every simulation program (checks rebuild whatever has changed)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
from build import build
from programs import PROGRAMS
for p in sorted(PROGRAMS):
    print(p, build(p, PROGRAMS[p]['units']()), flush=True)
