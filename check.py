#!/usr/bin/env python3
"""usage: check.py <property id>   (exit 0 held, 1 violated, 2 the check could not decide)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module('checks.' + pid)
        return mod.run()
    except Exception as e:
        traceback.print_exc()
        print('CHECK-ERROR property=%s %s: %s' % (pid, type(e).__name__, e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
