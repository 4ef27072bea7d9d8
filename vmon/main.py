import os, sys, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vmon import core
if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier'); ap.add_argument('--seed'); ap.add_argument('--worker'); ap.add_argument('--scratch'); ap.add_argument('--case')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(a.seed if a.seed is not None else os.environ.get('VERIF_SEED', '1'))
    if a.worker is not None:
        core.worker(a.prop, tier, seed, a.scratch, a.worker)
    elif a.case is not None:
        sys.exit(core.replay(a.prop, tier, seed, int(a.case)))
    else:
        sys.exit(core.main(a.prop, tier, seed))
