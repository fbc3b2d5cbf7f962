#!/usr/bin/env python
"""usage: run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--sub NAME]"""
import os
import sys

PY = '/opt/venv/bin/python'
ENV = {'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONWARNINGS': 'ignore', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}
if os.environ.get('VP_CHILD') != '1':
    env = dict(os.environ, VP_CHILD='1', **ENV)
    env.pop('PYTHONPATH', None)
    os.execve(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse  # noqa: E402
import warnings  # noqa: E402

warnings.filterwarnings('ignore')
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--replay')
ap.add_argument('--sub', action='append')
a = ap.parse_args()
tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
from vp import engine  # noqa: E402
try:
    rc = engine.main(a.property, tier, a.seed, os.path.abspath(a.replay) if a.replay else None,
                     a.sub)
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
