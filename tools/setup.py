'''checks that what the framework needs is importable (nothing has to be built)'''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
from symx import explore, replay  # noqa: E402,F401
import z3, swiglpk, scipy, sympy  # noqa: E402,F401,E401
print('z3', z3.get_version_string(), 'ok')
