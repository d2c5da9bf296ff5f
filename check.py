#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim import boot  # noqa: E402

boot.reexec()

import argparse  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--index', type=int)
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--survey', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from sim import runner
    if a.replay:
        return runner.main_replay(a.replay, a.debug)
    if a.survey:
        return runner.main_survey(a.prop, a.tier, a.seed, a.runs, a.budget, a.workers)
    if a.index is not None:
        b = runner.Batch(a.prop, a.tier, a.seed, 1, 1)
        try:
            cfg = b.cfg(a.index)
            print(cfg)
            rec = b.execute(a.index, cfg, debug=a.debug)
            rec['plans'] = None
            for k, v in rec.items():
                print(k, v)
        finally:
            b.close()
        return 0
    return runner.main_check(a.prop, a.tier, a.seed, a.runs, a.budget, a.workers, a.v)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
