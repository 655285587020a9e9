#!/usr/bin/env python3
"""Builds the simulators, the compiler and the runtime once, to see that this works here."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
k = build.Kit(ccsim=True)
print("built:", k.log or "nothing to do")
