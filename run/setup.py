#!/usr/bin/env python3
"""Builds every variant of the library and every workload from /repo's current tree (the checks rebuild what changed)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfl import build
from check import SPEC
t = time.time(); b = build({(s.variant, s.worker) for sp in SPEC.values() for s in sp['stages']})
print('%d executables, %.1f s' % (len(b), time.time() - t))
