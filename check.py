#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decide one property from /repo's current source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'analyzer'))
import core
from registry import CHECKS


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    c = CHECKS[pid]
    sys.exit(core.run_check(pid, c['fn'], c, tier))


main()
