#!/usr/bin/env python3
"""Builds the framework once (the checks rebuild what depends on /repo themselves)."""
import sys
from vlib import *

try:
    cargo_build("symx", "symx")
    cargo_build("kani", "kanih")
    import conc
    conc.build()
except Inconclusive as e:
    print(e)
    sys.exit(1)
