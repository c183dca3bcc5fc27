"""pyvc: a deductive verifier (symbolic executor + VC generator + prover) for the
numpy subset of Python that QAMpy is written in.  See /verif/DESIGN.md."""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)          # appended: the repository's own numpy/scipy win
