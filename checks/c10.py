"""C10: calibration of flat universes."""
import numpy as np
from symex.engine import Job
from .calib import Background, history, num
from .common import TRUSTED

PRELOAD = ('primpy.inflation', 'primpy.units', 'primpy.parameters')
EXPLANATION = ('calibrate_scale_factor is executed on a background solution with symbolic e-folds, Hubble rates '
               'and end-of-inflation potential, with every accepted combination of symbolic calibration inputs. z3 decides '
               'that the comoving Hubble radius is the inverse wavenumber at every point, that the pivot scale '
               'crosses the horizon at the reported e-folds, that the reheating history satisfies '
               'entropy conservation and the continuity equation at once (which makes equivalent inputs give the '
               'same history), that unphysical histories are flagged and that requests are refused only for the '
               'stated reasons.')
BOUNDS = ('grids of 6 points (4 between start and end of inflation) with increasing aH; every value of the e-folds, Hubble '
          'rates, V_end, N_star, g_th and reheating inputs; the measured physical constants are symbolic')
ASSUMPTIONS = list(TRUSTED) + [
    'scipy interp1d is piecewise linear between the nodes and refuses values outside of them',
    'the spectrum splines are not looked at here (their values at the pivot are arbitrary)',
    'inflation starts at the first and ends at the last point of the solution']

INSTANT = [dict(), dict(w_reh=1), dict(DeltaN_reh=0), dict(w_reh=1, DeltaN_reh=0), dict(DeltaN_minus1=0),
           dict(w_reh=1, DeltaN_reh=0, DeltaN_minus1=0)]


def request(p, keys):
    r = {}
    for k in keys:
        if k == 'N_star':
            r[k] = p.pos(k, sample=50.)
        elif k == 'rho_reh_GeV':
            r[k] = p.pos(k, sample=3e12)
        elif k == 'w_reh':
            r[k] = p.real(k, sample=.1)
        elif k == 'DeltaN_reh':
            r[k] = p.real(k, sample=2.3)
        elif k == 'DeltaN_minus1':
            r[k] = p.real(k, sample=.4)
    return r


def nstar(p, keys, n=4):
    B = Background(p, 0, n)
    g = p.pos('g_th', sample=90.)
    r = request(p, ('N_star',) + keys)
    # crossing inside the grid of the solution
    c = B.N[-1] - r['N_star']
    p.assume(c >= B.N[1])
    p.assume(c <= B.N[-2])
    out, exc = B.calibrate('N_star', g_th=g, **r)
    s = B.sol
    if out != 'ok':
        p.true('refused only without cause to accept', 'w_reh' in keys)
        p.eq('kind of refusal', exc, 'ValueError')
        if 'w_reh' in keys:
            w = r['w_reh']
            third = p.S(1) / 3 if p.mode == 'sym' else 1 / 3
            D = 4 * s.DeltaN_minus1 / (1 - 3 * w) if bool(w != third) else 0
            p.true('refusals', (w == third) | (w < -third) | (D < 0))
        return
    for k, v in r.items():
        p.eq('as requested: ' + k, s[k], v)
    history(p, B, g, bool(keys))


def third(p):
    return p.S(1) / 3 if p.mode == 'sym' else 1 / 3


def reheating(p, keys, instant=None, n=4):
    B = Background(p, 0, n)
    g = p.pos('g_th', sample=90.)
    r = request(p, keys)
    if instant is not None:
        r = dict(instant)
        if 'w_reh' in r:
            r['w_reh'] = third(p)
    out, exc = B.calibrate('reheating', g_th=g, **r)
    s = B.sol
    if out != 'ok':
        w, D = r.get('w_reh'), r.get('DeltaN_reh')
        if exc == 'InsufficientInflationError':
            # the pivot scale does not cross the horizon during inflation
            star = s.N0 + np.log(p.mod('primpy.parameters').K_STAR_lp * p.S(1)) - s.delta_N_calib \
                if p.mode == 'sym' else np.log(p.mod('primpy.parameters').K_STAR_lp) - s.delta_N_calib
            p.true('pivot out of range', (star < B.L[0]) | (star > B.L[-1]))
            return
        p.eq('kind of refusal', exc, 'ValueError')
        star = s.get('_logaH_star')
        bad = 0 * B.V_end > 1
        if w is not None:
            bad = bad | (w < -third(p)) | (w == third(p))
        if D is not None:
            bad = bad | (D <= 0) if not isinstance(D, int) else bad
        if r.get('DeltaN_minus1') is not None and instant is None:
            bad = bad | (r['DeltaN_minus1'] == 0)
        if star is not None:
            # outside of the grid points of the solution
            bad = bad | (star < B.L[1]) | (star > B.L[-2])
        p.true('refusals', bad)
        return
    for k, v in r.items():
        p.eq('as requested: ' + k, s[k], v)
    if instant is not None:
        p.eq('instant: DeltaN_reh', s.DeltaN_reh, 0, scale=1.)
        p.eq('instant: w_reh', s.w_reh, third(p))
        p.eq('instant: DeltaN_minus1', s.DeltaN_minus1, 0, scale=1.)
    known = instant is not None or 'rho_reh_GeV' in keys or 'w_reh' in keys \
        or bool(r['DeltaN_minus1'] == 0)
    history(p, B, g, known)


def override(p, n=4):
    """Calibration copied from another solution of the same universe."""
    A = Background(p, 0, n)
    B = Background(p, 0, n, tag='_2')
    g = p.pos('g_th', sample=90.)
    r = request(p, ('N_star',))
    c = A.N[-1] - r['N_star']
    p.assume(c >= A.N[1])
    p.assume(c <= A.N[-2])
    out, exc = A.calibrate('N_star', g_th=g, **r)
    p.eq('calibrated', out, 'ok')
    other = p.real('N_star_other', sample=51.)
    out, exc = B.calibrate(background=A.sol, N_star=other)
    if out != 'ok':
        p.eq('kind of refusal', exc, 'ValueError')
        p.true('refused if the e-folds do not match', other != r['N_star'])
        return
    p.eq('match', other, r['N_star'])
    s, a = B.sol, A.sol
    for k in ('N0', 'a0', 'a0_Mpc', 'N_star', 'N_cross', 'N_end', '_N_cross', '_N_end', 'delta_N_calib', '_logaH_star',
              'cHH_end_Mpc'):
        p.eq('copied: ' + k, num(s[k]), num(a[k]), scale=1e-3)
    for i in range(n + 2):
        p.eq('N[%d]' % i, s.N[i], B.N[i] + a.delta_N_calib, scale=1.)
    for i in range(n):
        p.eq('k[%d]' % i, s.k_iMpc[i] * a.a0_Mpc, np.exp(B.L[i + 1]), scale=0.)
    for i in range(n + 2):
        p.eq('cHH[%d]' % i, np.log(num(s.cHH_Mpc[i])) + B.L[i] - np.log(num(a.a0_Mpc)), 0, scale=1.)
    p.eq('N_beg', s.N_beg, B.N[0] + a.delta_N_calib, scale=1.)


def jobs(tier):
    out = []
    for keys in ((), ('w_reh',), ('rho_reh_GeV',)):
        out.append(Job('N_star ' + ' '.join(keys), nstar, dict(keys=keys)))
    for i, r in enumerate(INSTANT):
        out.append(Job('reheating instant %d' % i, reheating, dict(keys=(), instant=r)))
    for keys in (('DeltaN_minus1',), ('DeltaN_minus1', 'rho_reh_GeV'), ('w_reh', 'DeltaN_reh'), ('w_reh', 'rho_reh_GeV')):
        out.append(Job('reheating ' + ' '.join(keys), reheating, dict(keys=keys)))
    out.append(Job('background', override))
    return out
