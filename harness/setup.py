"""Compile the exact-rational override of TLC and run its self-test."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

common.ensure_classes()
c = common.Check("SETUP")
r = c.tlc("SelfTest", {"N": 7, "D": 5}, invariants=["Agree", "Matrices"])
print(f"BigRat and RMat agree with their definitions on {r.states} pairs of rationals")
import shutil

shutil.rmtree(c.work, ignore_errors=True)
