"""nothing to install: every check compiles what it needs; this only makes sure that the tool chain is there"""
import shutil, sys
for t in ('clang++-18', 'opt-18', 'g++', 'llvm-cxxfilt-18'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
import sympy, z3
