"""A small solver-backed symbolic executor for the real parsevasp sources."""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)   # appended: numpy / lxml / yaml come from the repo's own environment
sys.dont_write_bytecode = True
