"""vk: bounded symbolic execution of kymatio's real code, decided by z3."""
import sys
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _P not in sys.path:
    sys.path.append(_P)          # appended: numpy/scipy/... still come from the interpreter's own environment
