"""setup_cmd: nothing to build; checks that the interpreter can run the framework."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy
import sympy

from mc import model

assert model.solvable([model.poly("X + Y - 3"), model.poly("X - Y - 1")])
assert not model.solvable([model.poly("X - 3"), model.poly("X - 2")])
assert not model.solvable([model.poly("X*Y - 1"), model.poly("X")])
print("python", sys.version.split()[0], "numpy", numpy.__version__, "sympy", sympy.__version__)
