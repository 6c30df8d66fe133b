"""Nothing to build: checks that the symbolic machinery can be imported."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vsym import harness  # noqa: E402
from vsym.terms import z3  # noqa: E402
s = z3.Solver(); x = z3.Real('x'); s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
print('ready', z3.get_version_string())
