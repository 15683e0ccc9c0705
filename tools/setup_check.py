"""setup_cmd: nothing is built; check that the tools are there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine.values import z3  # noqa

s = z3.Solver()
s.add(z3.String("s") == "x")
assert s.check() == z3.sat
import h5py, lxml, numpy, PyQt5  # noqa
print("z3", z3.get_version_string(), "h5py", h5py.__version__, "numpy", numpy.__version__)
