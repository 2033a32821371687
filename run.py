"""python run.py C01 [--tier quick|thorough] [--sub NAME] [--replay FILE]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_ENV = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
        'CUDA_VISIBLE_DEVICES': '', 'PYTHONDONTWRITEBYTECODE': '1',
        'VERIF_ENV': '1'}
if os.environ.get('VERIF_ENV') != '1':
    os.environ.update(_ENV)
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'vendor'))
import warnings                     # noqa: E402
warnings.filterwarnings('ignore')
import harness                      # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--sub', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    harness.use_repo_sources()
    import torch
    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)
    if a.replay:
        return harness.replay(a.replay)
    return harness.run_check(a.property, a.tier, a.seed, a.sub, a.scale,
                             a.jobs)


if __name__ == '__main__':
    # run.py and check modules must share a single harness module object
    sys.exit(main())
