"""setup: nothing to compile; checks that the interpreter, z3 and the code under test load"""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from harness import simlib  # noqa: E402,F401

os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok", z3.get_version_string())
