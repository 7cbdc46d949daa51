#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] [--sub NAME ...]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
from lib import env  # noqa
from lib import runner  # noqa

p = argparse.ArgumentParser()
p.add_argument('prop')
p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
p.add_argument('--sub', nargs='*')
a = p.parse_args()
sys.exit(runner.main(a.prop, a.tier, a.seed, a.sub))
