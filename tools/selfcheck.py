#!/usr/bin/env python3-vt
"""setup: nothing is built ahead (every check compiles /repo's current headers itself); verifies that the tools are there"""
import shutil, sys, z3
missing = [t for t in ('clang++-18', 'opt-18', 'g++', 'cvc5', 'c++filt') if not shutil.which(t)]
print('z3', z3.get_version_string(), 'missing tools:', missing or 'none')
sys.exit(1 if missing else 0)
