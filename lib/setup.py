#!/usr/bin/env python3
"""Builds the engine and everything compiled from /repo once (checks rebuild what changed)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

print(vlib.engine())
t = vlib.Tree()
print(t.dir)
