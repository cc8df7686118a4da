#!/usr/bin/env python3
"""check.py Cnn            decide property Cnn on /repo's current tree (VERIF_SEED, VERIF_TIER)
check.py --replay FILE    run the violation recorded in FILE again"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/sim')
import build  # noqa: E402
from dst import base  # noqa: E402


def main():
    log = lambda s: print(s, file=sys.stderr, flush=True)
    try:
        exe = build.build(log)
    except build.BuildError as e:
        print('ERROR: the instrumented build failed\n%s' % e)
        return 3
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        return base.replay(sys.argv[2], exe)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return base.run_check(pid, exe, tier, seed, log)


if __name__ == '__main__':
    sys.exit(main())
