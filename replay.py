#!/opt/venv/bin/python
"""replay.py FILE: re-executes one saved case, without Hypothesis' engine.
Exit 0: the property holds on it, 1: it does not"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import env  # noqa
from lib import runner  # noqa

path = os.path.abspath(sys.argv[1])
with open(path) as f:
    data = json.load(f)
env.import_hypothesis()
env.import_meshless()
mod = importlib.import_module('props.%s' % data['property'].lower())
sub = [s for s in mod.SUBS if s.name == data['sub']][0]
rec, msg, skipped = runner.run_case(sub, data['case'], runner.load_known(data['property']))
if msg is None:
    print('holds' + (' (outside of the domain)' if skipped else '') +
          (' known: %s' % rec.known if rec.known else ''))
    sys.exit(0)
print(msg)
print('VIOLATION property=%s replay=%s' % (data['property'], path))
sys.exit(1)
