"""
Usage: run.py PROPERTY [--replay FILE] [--only WORKLOAD] [--scale X]
Exit 0: the property held on everything that was run. Exit 1: violated, with a VIOLATION line. Exit 3: inconclusive.
The environment variables VERIF_SEED and VERIF_TIER choose the seed and the tier.
"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from harness import env

if __name__ == '__main__':
    env.reexec()
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--tier', choices=['quick', 'thorough'], default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    args = ap.parse_args()
    env.setup()
    from harness import core
    if args.replay:
        sys.exit(core.replay(args.replay))
    sys.exit(core.run_check(args.property, args.tier, args.seed, args.only, args.scale))
