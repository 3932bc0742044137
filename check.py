#!/usr/bin/env python3
"""Runs the check of one property: check.py ID"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402
from vlib.registry import CHECKS  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    fn, spec = CHECKS[prop]
    sys.exit(core.main(prop, fn, spec))
