"""Make the z3 bindings of the verification venv importable from the interpreter that runs netomaton.

The repository is executed by the interpreter it is built for (/opt/venv: numpy 1.22, networkx 2.5, msgpack 1.2), the
solver's Python bindings live in /opt/veriftools/pyvenv.  Only the z3 package is taken from there.
"""
import glob
import importlib.util
import os
import sys


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    for base in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
        init = os.path.join(base, "z3", "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location("z3", init, submodule_search_locations=[os.path.dirname(init)])
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
    import z3
    return z3


z3 = load()
