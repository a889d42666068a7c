#!/usr/bin/env python3
"""check.py <property-id> [--repo DIR] : run one static check against the current source tree."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)


def main(argv):
    repo = '/repo'
    if '--repo' in argv:
        i = argv.index('--repo')
        repo = argv[i + 1]
        del argv[i:i + 2]
    from sa.report import run_check
    rc = 0
    for pid in argv:
        mod = importlib.import_module('sa.rules.%s' % pid.lower())
        rc = max(rc, run_check(pid, mod.check, repo))
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
