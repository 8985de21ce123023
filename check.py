#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--runs N] [--seconds S]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from simkit import runner  # noqa: E402

p = argparse.ArgumentParser()
p.add_argument('property')
p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
p.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
p.add_argument('--runs', type=int)
p.add_argument('--seconds', type=float)
p.add_argument('--workers', type=int, default=8)
a = p.parse_args()
sys.exit(runner.run_check(a.property, a.tier, a.seed, a.runs, a.seconds,
                          a.workers))
