"""setup: the solver and the translator are usable"""
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import z3
s = z3.Solver()
x = z3.Real("x")
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
import loader
w = loader.World()
w.load("mmcore.numeric.vectors")
print("setup ok, z3", z3.get_version_string())
