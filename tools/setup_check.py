"""Nothing has to be built: check that the interpreter, the solver bindings and the package are usable."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = ("import sys; sys.path.insert(0, %r); from sx.z3load import z3; s = z3.Solver(); x = z3.Int('x'); "
        "s.add(x * x == 49); assert s.check() == z3.sat; import numpy, networkx, msgpack; print('ok', z3.get_version_string())"
        % here)
sys.exit(subprocess.call(["/opt/venv/bin/python", "-W", "ignore", "-B", "-c", code]))
