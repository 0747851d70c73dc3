"""Builds the symbolic engine (LLVM pass and runtime) from the committed sources."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
print(build.engine())
