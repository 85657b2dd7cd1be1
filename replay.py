"""Re-run one recorded counterexample against the unmodified code:  replay.py <file.json>."""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import symex  # noqa: E402,F401
from symex import engine  # noqa: E402

v = json.load(open(sys.argv[1]))
mod = importlib.import_module('checks.' + v['property'].lower())
for tier in ('quick', 'thorough'):
    job = next((j for j in mod.jobs(tier) if j.name == v['job']), None)
    if job:
        break
R, err = engine.Runner(v['property'], 'quick', None, None).run_real(job, v['values'], v['choices'])
print('recorded: %s / %s: %s' % (v['job'], v['obligation'], v['why']))
if isinstance(err, Exception):
    print('real code raised', repr(err))
for n, r in (R.rec if R else {}).items():
    if n == v['obligation'] or isinstance(err, Exception):
        print('real code:', n, r)
