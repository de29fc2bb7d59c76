#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [-v]: decide one property by static analysis
of /repo/src."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.check import main  # noqa: E402

sys.exit(main(sys.argv))
