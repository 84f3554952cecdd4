#!/usr/bin/env python3
"""Check that the tools needed are there; nothing is downloaded or installed."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import llvmir, build
llvmir._load()
m = build.compile_ir("setup", text="int f(int x){return x+1;}\n")
assert "f" in m.functions
print("setup ok:", build.CLANG, build.OPT)
