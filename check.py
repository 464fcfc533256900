#!/usr/bin/env python3
"""check.py ID [...]: decide the named properties on /repo's current source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from fsa import report  # noqa: E402


def main(argv):
    ids = [a for a in argv if not a.startswith('-')]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    rc = 0
    for pid in ids:
        mod = importlib.import_module('fsa.checks.' + pid.lower())
        r = report.run(pid, mod.check, tier)
        rc = r if r and (rc == 0 or r == 1) else rc
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
