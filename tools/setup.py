#!/usr/bin/env python3-vt
"""Builds everything once, so that a broken toolchain shows up before the checks run."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "symx"), ROOT]
import driver, ir
for c in ("h_srp", "h_spake2", "h_aucpace"):
    ll = driver.build_ir(c)
    print(c, len(ir.Module(ll).funcs), "functions")
print(driver.build_native(False))
print(driver.build_native(True))
