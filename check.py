#!/usr/bin/env python3
"""python3 check.py <property> [--replay FILE | --show N]"""
import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
sys.path.insert(0, os.path.join(here, "checks"))
sys.dont_write_bytecode = True
import engine  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    sys.exit(engine.main(mod.CHECK(), sys.argv[2:]))
