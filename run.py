#!/usr/bin/env python3
"""python3-vt run.py <property> [--tier quick|thorough] [--case NAME ...] | --replay FILE"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--case', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true', help='check that the solver and the engine load')
    ap.add_argument('--jobs', type=int, default=8)
    args = ap.parse_args()
    from symx import runner
    if args.selftest:
        import z3
        from symx import core, instrument, proxies  # noqa: F401
        x = z3.Int('x')
        s = z3.Solver()
        s.add(x > 3, x < 4)
        assert s.check() == z3.unsat
        print('z3', z3.get_version_string(), 'ok')
        return
    if args.replay:
        runner.replay_main(args.replay)
        return
    seed = int(os.environ.get('VERIF_SEED') or 1)
    sys.exit(runner.main(args.property, args.tier, seed, args.case, args.jobs))


if __name__ == '__main__':
    main()
