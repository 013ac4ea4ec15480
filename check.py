#!/usr/bin/env python3
"""Usage: check.py <property> | check.py replay <file>

VERIF_SEED and VERIF_TIER (quick, thorough) select what is generated.
"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

sys.setrecursionlimit(60000)          # Deeply nested messages.

from pbv import runner
from pbv.checks import CHECKS


def main():
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        return runner.replay(sys.argv[2], CHECKS)
    if sys.argv[1:] == ['list']:
        print(*sorted(CHECKS))
        return 0
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) == 3:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    return runner.run_check(CHECKS[sys.argv[1]], tier, seed)


if __name__ == '__main__':
    sys.exit(main())
