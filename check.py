#!/usr/bin/env python3
"""check.py PROPERTY [tier]: decide one property on the current /repo sources."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'lib'), V]
sys.dont_write_bytecode = True
import core
core.main(sys.argv)
