"""C12: classification and validation of reheating inputs."""
import itertools
import numpy as np
from symex.engine import Job
from .calib import Background, num
from .common import TRUSTED

PRELOAD = ('primpy.inflation', 'primpy.reheating', 'primpy.units', 'primpy.parameters')
EXPLANATION = ('is_instant_reheating and calibrate_scale_factor are executed for each of the subsets of given and missing '
               'inputs, with symbolic values for the given ones (so that the instantaneous values are single points of '
               'the input space the solver has to find). z3 decides on every path that the outcome is the one of the '
               'specification: instant, general, or refused. Accepted inputs have to be reported back unchanged, so that none is '
               'silently dropped or reinterpreted.')
BOUNDS = ('all subsets of N_star, rho_reh_GeV, w_reh, DeltaN_reh, DeltaN_minus1 with all real values, flat and curved, every '
          'calibration method; background grids of 4 points; the measured constants are symbolic')
ASSUMPTIONS = list(TRUSTED) + [
    'scipy interp1d is piecewise linear between the nodes and refuses values outside of them',
    'the spectrum splines are not looked at here (their values at the pivot are arbitrary)',
    'requests with a background to copy from are covered by C10']
KEYS = ('rho_reh_GeV', 'w_reh', 'DeltaN_reh', 'DeltaN_minus1')
SAMPLE = dict(rho_reh_GeV=3e12, w_reh=.1, DeltaN_reh=2.3, DeltaN_minus1=.4, N_star=25.)


def subsets():
    return [s for n in range(5) for s in itertools.combinations(KEYS, n)]


def values(p, keys):
    return {k: p.pos(k, sample=SAMPLE[k]) if k == 'rho_reh_GeV' else p.real(k, sample=SAMPLE[k]) for k in keys}


def third(p):
    return p.S(1) / 3 if p.mode == 'sym' else 1 / 3


def classify(p, r):
    """'instant', 'general' or 'contradiction' (forks on the values)."""
    if not r:
        return 'instant'
    inst = {}
    for k, v in r.items():
        # no energy density is instantaneous by itself
        inst[k] = False if k == 'rho_reh_GeV' else bool(v == (third(p) if k == 'w_reh' else 0))
    if not any(inst.values()):
        return 'general'
    return 'instant' if all(inst.values()) else 'contradiction'


def instant(p, nstar):
    f = p.mod('primpy.reheating').is_instant_reheating
    keys = p.choice('given', subsets())
    r = values(p, keys)
    full = {k: r.get(k) for k in KEYS}
    got = p.outcome(lambda: f(N_star=p.real('N_star', sample=50.) if nstar else None, **full))
    cls = 'general' if nstar else classify(p, r)
    if cls == 'contradiction':
        p.eq('contradictions are refused', got, ('raise', 'ValueError'))
    else:
        p.eq('classification', (got[0], bool(got[1])), ('ok', cls == 'instant'))




def request(p, K, method, keys, nstar):
    B = Background(p, K, 4)
    r = values(p, keys)
    if nstar:
        r['N_star'] = p.real('N_star', sample=SAMPLE['N_star'])
    k = dict(r)
    if K:
        k['h'] = p.pos('h', sample=.7)
        if method == 'Omega_K0':
            k['Omega_K0'] = -K * p.pos('Omega', sample=.01)
    if method == 'N_star' and nstar:
        # the pivot scale crosses the horizon within the grid of the solution (see C10), or never
        p.assume((B.N[-1] - r['N_star'] >= B.N[1]) | (B.N[-1] - r['N_star'] < B.N[0]))
        p.assume((B.N[-1] - r['N_star'] <= B.N[-2]) | (r['N_star'] <= 0))
    out, exc = B.calibrate(method, **k)
    s = B.sol
    # specification
    reh = frozenset(keys)
    bad = None
    if method == 'N_star':
        if not nstar or bool(r['N_star'] <= 0):
            bad = True
        elif reh == {'w_reh'} and not bool(r['N_star'] > B.N[-1] - B.N[0]):
            w = r['w_reh']
            if bool(w == third(p)) or bool(w < -third(p)):
                bad = True
            elif out != 'ok' and exc == 'ValueError':
                p.true('negative duration', 4 * s.DeltaN_minus1 / (1 - 3 * w) < 0)
                return
        elif reh not in (set(), {'w_reh'}, {'rho_reh_GeV'}):
            bad = True
    elif method == 'Omega_K0':
        bad = nstar or reh not in (set(), {'rho_reh_GeV'})
    else:
        cls = classify(p, r)
        combos = [{'w_reh', 'DeltaN_reh'}, {'w_reh', 'rho_reh_GeV'}]
        if not K:
            combos += [{'DeltaN_minus1'}, {'DeltaN_minus1', 'rho_reh_GeV'}]
        bad = nstar or cls == 'contradiction' or cls == 'general' and reh not in combos
        if 'w_reh' in r:
            bad = bad or bool(r['w_reh'] < -third(p))
        if 'DeltaN_reh' in r:
            bad = bad or bool(r['DeltaN_reh'] < 0)
    if bad:
        if exc == 'InsufficientInflationError' and method == 'N_star':
            p.true('too little inflation', r['N_star'] > B.N[-1] - B.N[0])
            return
        p.true('refused', out == 'raise' and exc in ('ValueError', 'NotImplementedError'))
        return
    if out != 'ok':
        # the pivot scale never crosses the horizon; see C10 and C11 for the exact range
        if method == 'N_star' and exc == 'InsufficientInflationError':
            p.true('too little inflation', r['N_star'] > B.N[-1] - B.N[0])
        elif K == 0 and method == 'reheating' and exc == 'ValueError' and '_logaH_star' in s:
            p.true('pivot scale outside of the grid', (num(s._logaH_star) < B.L[1]) | (num(s._logaH_star) > B.L[-2]))
        else:
            p.true('accepted', exc == 'InsufficientInflationError')
        return
    for name, v in r.items():
        p.eq('as requested: ' + name, s[name], v)
    if method == 'reheating' and cls == 'instant':
        p.eq('instant: w_reh', s.w_reh, third(p))
        p.eq('instant: DeltaN_reh', s.DeltaN_reh, 0, scale=1.)
        p.eq('instant: DeltaN_minus1', s.DeltaN_minus1, 0, scale=1.)


def unknown(p):
    K = p.choice('K', [0, 1, -1])
    B = Background(p, K, 2)
    m = p.choice('method', ['spam', 'Omega_K0' if K == 0 else 'N_star'])
    kw = dict(h=p.pos('h', sample=.7)) if K else dict(N_star=p.pos('N_star', sample=20.))
    p.eq('unknown method', B.calibrate(m, **kw), ('raise', 'NotImplementedError'))


def jobs(tier):
    out = [Job('is_instant_reheating N_star=%s' % n, instant, dict(nstar=n)) for n in (False, True)]
    out.append(Job('unknown method', unknown))
    for K, method in ((0, 'N_star'), (0, 'reheating'), (1, 'Omega_K0'), (1, 'reheating'), (-1, 'reheating')):
        for nstar in (True, False):
            for keys in subsets():
                out.append(Job('K=%d %s%s %s' % (K, method, ' N_star' if nstar else '', ' '.join(keys)), request,
                               dict(K=K, method=method, keys=keys, nstar=nstar)))
    return out
