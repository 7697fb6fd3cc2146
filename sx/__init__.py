"""sx: a small symbolic executor for the Python/NumPy code of pyspectral.

The real functions of /repo are imported from the working tree and run by the
CPython interpreter on symbolic values; every data dependent decision becomes a
solver query (z3, with cvc5 as a second opinion), and every property becomes an
assertion that the solver must refute on every feasible path.
"""
import sys

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
