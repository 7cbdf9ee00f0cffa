#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--only NAME] [-v]   |   run.py --replay FILE"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(6000)

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    import symex  # noqa
    from symex import driver
    if a.selftest:
        import numpy, z3  # noqa
        from checks import P10  # noqa
        print('engine imports; z3', z3.get_version_string())
        sys.exit(0)
    if a.replay:
        sys.exit(driver.do_replay(a.replay))
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    sys.exit(driver.main(a.pid, tier, a.seed, a.jobs, a.only, a.v))
