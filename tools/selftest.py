#!/usr/bin/env python3-vt
"""setup_cmd: the toolchain is present and the sources compile to IR."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3
from engine import build
s = z3.Solver(); x = z3.BitVec("x", 8); s.add(x * x == 5); assert s.check() == z3.unsat
build.bitcode(); build.native()
print("setup ok: z3", z3.get_version_string())
