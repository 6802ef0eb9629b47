#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current source."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    from pysa import check
    mod = importlib.import_module('pysa.checks.' + pid.lower())

    def f():
        c = check.Check(pid, mod.TITLE)
        mod.run(c)
        return c.finish()
    rc = check.run(pid, f)
    sys.stdout.flush()
    os._exit(rc)


main()
