#!/usr/bin/env python3
"""Compiles the arithmetic evaluator and checks it against the laws of spec/SelfTest.tla."""
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import harness  # noqa: E402

d = tempfile.mkdtemp(prefix="frds-setup-")
try:
    r = harness.tlc("SelfTest", "SelfTest.cfg", d)
    print(f"SelfTest: {r.distinct} states, no error")
finally:
    shutil.rmtree(d, ignore_errors=True)
