"""acev: a contract-based deductive verifier for the tensor-network Python of /repo.

The real source of the package is compiled and run by CPython with symbolic values
(integers, booleans, tensors of symbolic shape); see DESIGN.md.
"""
import sys
_Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _Z3 not in sys.path:
    sys.path.append(_Z3)
