#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current source."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.common import Broken, Report  # noqa: E402


def main():
    pid = sys.argv[1]
    try:
        m = importlib.import_module("checks." + pid.lower())
        rep = m.run()
    except Broken as e:
        print("check %s cannot run: %s" % (pid, e))
        return 2
    except Exception:
        # the analysis met a construct it cannot represent: nothing is decided, and nothing is claimed
        traceback.print_exc()
        rep = Report(pid, getattr(m, "LEVEL", "proof") if "m" in dir() else "proof")
        rep.open("analysis", pid, "the analysis failed: " + traceback.format_exc()[-800:])
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
