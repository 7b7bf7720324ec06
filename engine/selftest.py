"""setup: checks that the tools the framework needs are present and that the verifier can both prove and refute"""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for t in (["clang++", "--version"], ["z3", "--version"], ["cvc5", "--version"], ["g++", "--version"], ["cbmc", "--version"], ["goto-cc", "--version"]):
    subprocess.run(t, stdout=subprocess.DEVNULL, check=True)
import z3
x = z3.Int("x"); s = z3.Solver(); s.add(x > 0, x < 1)
assert s.check() == z3.unsat
s = z3.Solver(); s.add(x > 0, x < 2); assert s.check() == z3.sat
print("ok")
