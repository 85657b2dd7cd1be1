"""Symbolic execution of the real Python sources with an SMT solver deciding the assertions."""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
