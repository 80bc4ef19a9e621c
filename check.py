#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('_FCA_SEEDED') != '1':
    os.environ['_FCA_SEEDED'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

from sa import run
from sa.registry import REGISTRY


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    args = sys.argv[1:]
    if '--thorough' in args:
        tier = 'thorough'
        args.remove('--thorough')
    rc = 0
    for a in args or sorted(REGISTRY):
        rc = max(rc, run.main(a, tier, REGISTRY))
    return rc


if __name__ == '__main__':
    sys.exit(main())
