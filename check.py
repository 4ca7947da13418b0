#!/usr/bin/env python3
"""python3 check.py C01 [--thorough] [--replay FILE]

Decides one property by running the real calculator, built from /repo's
working tree, under generated workloads with a monitor.  VERIF_SEED and
VERIF_TIER are honoured.  Exit 0: held; 1: VIOLATION line; 2: no answer."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        from vlib import build
        try:
            for kind in build.SETUP:
                print(build.binary(kind))
            print(build.shim())
            print(build.shim("timeshim"))
            build.cleanup()
        except build.BuildError as e:
            print("BUILD FAILED: %s" % e)
            return 1
        return 0
    pid = sys.argv[1].upper()
    mod = importlib.import_module("checks." + pid.lower())
    return core.main(mod.CHECK, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())
