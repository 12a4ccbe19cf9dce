#!/usr/bin/env python3
"""python3 check.py P01 [P02 ...] | all  -- decide properties of /repo by static analysis"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(argv):
    from checks.common import execute
    ids = argv
    if ids == ["all"]:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")) if f.startswith("p") and f[1:3].isdigit())
    rc = 0
    for pid in ids:
        m = importlib.import_module("checks." + pid.lower())
        rc = max(rc, execute(pid, m.check, m.EXPLANATION))
    return rc


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main(sys.argv[1:]))
