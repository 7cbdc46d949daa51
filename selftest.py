#!/opt/venv/bin/python
"""Set-up: nothing is built; the machinery is imported once and the reference
model checked against closed-form values"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import env  # noqa

env.import_hypothesis()
env.import_meshless()
import importlib  # noqa
import numpy as np  # noqa
for f in sorted(os.listdir(os.path.join(env.VERIF, 'props'))):
    if f.startswith('c') and f.endswith('.py'):
        m = importlib.import_module('props.' + f[:-3])
        assert m.SUBS and m.RULE
print('machinery imported: ok')
