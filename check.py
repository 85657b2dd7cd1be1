"""Entry point of every registered check:  check.py <property id> [--tier quick|thorough].

Exit 0: every obligation was discharged by the solver.  Exit 1: a counterexample that reproduces on
the unmodified code (VIOLATION line).  Exit 2: the check could not decide.
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')

import symex  # noqa: E402,F401
from symex import engine  # noqa: E402
from symex.loader import Loader, REPO  # noqa: E402

_JOBS, _RUN, _FUNCS = None, None, set()


def _watch():
    """Record which functions of the repository are executed symbolically."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'verif')
    except ValueError:
        return
    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO + os.sep):
            _FUNCS.add('%s:%s' % (os.path.relpath(f, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def _one(i):
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    job = _JOBS[i]
    _FUNCS.clear()
    sys.monitoring.restart_events()
    try:
        r = _RUN.run_job(job)
        # a harness that abstracts too much is retried without the abstraction
        if r['errors'] and not r['violations'] and job.fallback is not None:
            r = _RUN.run_job(job.fallback)
    except Exception as e:      # machinery failure: never a verdict
        import traceback
        r = dict(job=job.name, paths=0, obligations=[], violations=[], notes=[], validated=0,
                 reach=0, unreach=0, stats={}, wall=0,
                 errors=['machinery: %r\n%s' % (e, traceback.format_exc()[-1500:])])
    r['funcs'] = sorted(_FUNCS)
    r.pop('_', None)
    return r


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                kv = dict(t.split('=', 1) for t in line[8:].split(' -- ')[0].split() if '=' in t)
                kv['text'] = line.split(' -- ', 1)[1] if ' -- ' in line else ''
                out.append(kv)
    return out


def main():
    global _JOBS, _RUN
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('-v', action='count', default=0)
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    mod = importlib.import_module('checks.' + a.pid.lower())
    loader = Loader()
    _watch()
    errors = []
    try:
        _JOBS = mod.jobs(tier)
    except Exception as e:
        print('ERROR: cannot build the harness: %r' % e)
        return 2
    if a.only:
        _JOBS = [j for j in _JOBS if a.only in j.name]
    _RUN = engine.Runner(a.pid, tier, loader, HERE)
    results = []
    budget = getattr(mod, 'BUDGET', 820 if tier == 'quick' else 6000)
    if a.serial or len(_JOBS) == 1:
        results = [_one(i) for i in range(len(_JOBS))]
    else:
        # the real modules are imported once, before forking
        for m in getattr(mod, 'PRELOAD', ('primpy.potentials',)):
            try:
                engine.real_module(m)
                loader.load(m)
            except Exception:
                pass
        ctx = mp.get_context('fork')
        with cf.ProcessPoolExecutor(max_workers=min(8, len(_JOBS)), mp_context=ctx) as ex:
            order = sorted(range(len(_JOBS)), key=lambda i: -getattr(_JOBS[i], 'weight', 1))
            futs = {ex.submit(_one, i): i for i in order}
            done, pend = cf.wait(futs, timeout=budget)
            for f in done:
                try:
                    results.append(f.result())
                except Exception as e:
                    errors.append('%s: worker died: %r' % (_JOBS[futs[f]].name, e))
            for f in pend:
                errors.append('%s: no verdict within the time budget' % _JOBS[futs[f]].name)
            if pend:
                for p in list(ex._processes.values()):
                    p.kill()
                ex.shutdown(wait=False, cancel_futures=True)
    results.sort(key=lambda r: r['job'])
    known = [k for k in known_findings() if k.get('property') == a.pid]
    viol, hits = [], []
    for r in results:
        errors += ['%s: %s' % (r['job'], e) for e in r['errors']]
        for v in r['violations']:
            k = next((k for k in known if k.get('job') == v['job']
                      and k.get('obligation') == v['obligation']), None)
            if k:
                hits.append((k, v))
            else:
                viol.append(v)
    stats = {}
    for r in results:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
    obl = [(r['job'], n, v, t) for r in results for n, v, t in r['obligations']]
    funcs = sorted({f for r in results for f in r['funcs']})
    notes = sorted({n for r in results for n in r['notes']})
    ev = dict(
        property=a.pid, tier=tier, seed=engine.SEED, level=getattr(mod, 'LEVEL', 'other'),
        coverage=dict(
            explanation=mod.EXPLANATION,
            bounds=mod.BOUNDS,
            harnesses=len(results), paths=sum(r['paths'] for r in results),
            obligations=len(obl), discharged=sum(1 for o in obl if o[2] == 'unsat'),
            reachability_twins_sat=sum(r['reach'] for r in results),
            encodings_validated_against_real_code=sum(r['validated'] for r in results),
            solver_queries=stats.get('queries', 0), solver_unsat=stats.get('unsat', 0),
            solver_sat=stats.get('sat', 0), solver_unknown=stats.get('unknown', 0),
            solver_seconds=round(stats.get('time', 0.0), 3),
            solver='z3 %s' % __import__('z3').get_version_string(),
            functions_encoded=funcs,
            stubs=notes,
            samples=[dict(harness=o[0], obligation=o[1], verdict=o[2], seconds=o[3])
                     for o in (obl[:3] + sorted(obl, key=lambda o: -o[3])[:5])],
        ),
        assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if errors:
        ev['coverage']['inconclusive'] = errors[:20]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v:
        for o in obl:
            if a.v > 1 or o[2] != 'unsat' or o[3] > 2:
                print('  %-40s %-40s %s %.2fs' % o)
        for r in results:
            print('  job %s: paths %d reach %d validated %d unreach %d wall %.1f' % (
                r['job'], r['paths'], r['reach'], r['validated'], r['unreach'], r['wall']))
    print('%s %s: %d harnesses, %d paths, %d obligations, %d discharged, %d solver queries, '
          '%.1fs solver, %.1fs wall' % (
              a.pid, tier, len(results), ev['coverage']['paths'], len(obl),
              ev['coverage']['discharged'], stats.get('queries', 0), stats.get('time', 0),
              time.time() - t0))
    for k, v in hits:
        print('KNOWN-FINDING: property=%s %s' % (a.pid, k['text']))
    for i, v in enumerate(viol):
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s_%d.json' % (a.pid, i))
        with open(p, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (a.pid, p))
        print('   %s / %s at %s %s: %s' % (v['job'], v['obligation'], v['values'], v['choices'],
                                           v['why']))
    for e in errors:
        print('INCONCLUSIVE %s' % e)
    sys.stdout.flush()
    if viol:
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
