"""Symbolic execution of PyTorch/NumPy code with SMT verdicts.

Importing this package makes the preinstalled z3/cvc5 Python bindings available
to the interpreter that runs the repository (same Python version).
"""
import os
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
sys.setrecursionlimit(200000)
