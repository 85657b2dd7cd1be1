"""Plant one change: build patch.diff, demo and meta.json, confirm them in a scratch copy, and run the check.

usage (from a python script): seed(id, property, needs, breaks, [(file, old, new), ...], demo_python_text)
"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def seed(i, prop, needs, breaks, edits, demo, check=True, tests=True):
    wt = '/tmp/seedwt/' + i
    if os.path.isdir(wt):
        shutil.rmtree(wt)
    os.makedirs('/tmp/seedwt', exist_ok=True)
    shutil.copytree('/repo', wt, symlinks=True)
    try:
        return _seed(wt, i, prop, needs, breaks, edits, demo, check, tests)
    finally:
        shutil.rmtree(wt)


def _seed(wt, i, prop, needs, breaks, edits, demo, check, tests):
    for f, old, new in edits:
        s = open(wt + '/' + f).read()
        if s.count(old) != 1:
            print(i, 'EDIT COUNT', s.count(old), repr(old))
            return False
        open(wt + '/' + f, 'w').write(s.replace(old, new))
    d = os.path.join(HERE, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    rc, diff = sh('git diff', wt)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nD="$(cd "$(dirname "$0")" && pwd)"\n'
                                    'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    ok = True
    rc0, o0 = sh('bash %s/demo.sh' % d, '/repo', timeout=300)
    rc1, o1 = sh('bash %s/demo.sh' % d, wt, timeout=300)
    if rc0 != 0 or rc1 == 0:
        print(i, 'DEMO', rc0, rc1, o0[-700:], o1[-700:])
        ok = False
    msg = ''
    if ok and tests:
        rc, o = sh(PY + ' -c "import primpy;print(primpy.__file__)"', wt)
        assert o.startswith(wt), o
        rc, o = sh('LD_PRELOAD=/opt/vp/zerotail.so %s -m pytest -q -n 8 -p no:cacheprovider --timeout=100 tests 2>&1 | tail -15' % PY, wt)
        tail = o.strip().splitlines()
        msg = tail[-1]
        failed = [t for t in tail if t.startswith('FAILED') or t.startswith('ERROR')]
        if failed or 'passed' not in msg:
            print(i, 'TESTS', msg, failed[:4])
            ok = False
    if not ok:
        os.makedirs('/tmp/rejected', exist_ok=True)
        shutil.rmtree('/tmp/rejected/' + i, ignore_errors=True)
        shutil.move(d, '/tmp/rejected/' + i)
        return False
    res = ''
    if check:
        rc, o = sh('%s check.py %s' % (PY, prop), HERE, env=dict(VERIF_REPO=wt, VERIF_TIER='quick', VERIF_SEED='1'), timeout=1800)
        res = 'check rc=%d %s' % (rc, ' | '.join(x for x in o.splitlines() if 'VIOLATION' in x)[:300])
        if rc != 1:
            res += o[-500:]
    print(i, 'OK', msg, res, flush=True)
    return True
