#!/opt/venv/bin/python
"""nothing to build: verifies that the interpreter, solvers and numpy are there"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import pyvc, z3, numpy
from pyvc import interp, loops, npmodels, spec  # noqa
print("pyvc ready, z3", z3.get_version_string(), "numpy", numpy.__version__)
