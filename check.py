#!/usr/bin/env python3
"""python3 check.py C01: decide one property (see MANIFEST.json)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    core.main(pid, mod.check, getattr(mod, "LEVEL", "model_checking"))


main()
