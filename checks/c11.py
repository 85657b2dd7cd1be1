"""C11: calibration of curved universes."""
import numpy as np
from symex.engine import Job
from .calib import Background, history, num
from .c10 import INSTANT, request, third
from .common import TRUSTED

PRELOAD = ('primpy.inflation', 'primpy.units', 'primpy.parameters')
EXPLANATION = ('calibrate_scale_factor is executed on a background solution with symbolic e-folds, Hubble rates '
               'and end-of-inflation potential, in closed and open universes, with every accepted combination of symbolic '
               'calibration inputs. z3 decides that the resulting scale factor, curvature density, pivot crossing and '
               'reheating history satisfy the definition of the curvature density, entropy conservation and the '
               'continuity equation at once (which makes the two methods inverse to each other), that the '
               'second of two calibrations leaves no trace of the first, and that refusals happen '
               'only for the stated reasons.')
BOUNDS = ('grids of 6 points (4 between start and end of inflation) with increasing aH; every value of the e-folds, Hubble '
          'rates, V_end, Omega_K0, h, g_th and reheating inputs; the measured physical constants are symbolic; curvature -1 and 1')
ASSUMPTIONS = list(TRUSTED) + [
    'scipy interp1d is piecewise linear between the nodes and refuses values outside of them',
    'the spectrum splines are not looked at here (their values at the pivot are arbitrary)',
    'inflation starts at the first and ends at the last point of the solution']


def today(p, B, h):
    """Definition of the curvature density parameter."""
    s = B.sol
    u = p.mod('primpy.units')
    ln = np.log
    p.eq('curvature today', ln(-B.K * num(s.Omega_K0)) + 2 * ln(s.a0_Mpc * h * 100000 / u.c), 0, scale=1.)
    p.true('sign of the curvature today', -B.K * num(s.Omega_K0) > 0)
    p.eq('a0 in Mpc', ln(num(s.a0)) - ln(s.a0_Mpc), ln(u.Mpc_m / u.lp_m), scale=1.)
    p.eq('no shift', s.delta_N_calib, 0, scale=1.)


def out_of_range(p, B):
    """The pivot scale does not cross the horizon between the grid points."""
    s = B.sol
    k = p.mod('primpy.parameters').K_STAR
    L = np.log(k * p.S(s.a0_Mpc)) if p.mode == 'sym' else np.log(k * s.a0_Mpc)
    return (L < B.L[1]) | (L > B.L[-2])


def omega(p, K, keys, n=4, first=False):
    B = Background(p, K, n)
    g = p.pos('g_th', sample=90.)
    h = p.pos('h', sample=.7)
    if first:
        # an earlier calibration with all the reheating details
        B.calibrate('Omega_K0', Omega_K0=-K * p.pos('O_before', sample=.03), h=h, rho_reh_GeV=p.pos('rho_before', sample=1e9))
    r = request(p, keys)
    r['Omega_K0'] = -K * p.pos('Omega', sample=.01)
    out, exc = B.calibrate('Omega_K0', g_th=g, h=h, **r)
    if out != 'ok':
        p.eq('kind of refusal', exc, 'InsufficientInflationError')
        p.true('refusals', out_of_range(p, B))
        return
    for k, v in r.items():
        p.eq('as requested: ' + k, B.sol[k], v)
    today(p, B, h)
    history(p, B, g, bool(keys), minus1=bool(keys))


def reheating(p, K, keys, instant=None, n=4):
    B = Background(p, K, n)
    g = p.pos('g_th', sample=90.)
    h = p.pos('h', sample=.7)
    r = request(p, keys)
    if instant is not None:
        r = dict(instant)
        if 'w_reh' in r:
            r['w_reh'] = third(p)
    out, exc = B.calibrate('reheating', g_th=g, h=h, **r)
    s = B.sol
    if out != 'ok':
        if exc == 'InsufficientInflationError':
            p.true('pivot out of range', out_of_range(p, B))
            return
        p.eq('kind of refusal', exc, 'ValueError')
        w, D = r.get('w_reh'), r.get('DeltaN_reh')
        bad = 0 * B.V_end > 1
        if w is not None:
            bad = bad | (w < -third(p)) | (w == third(p))
        if D is not None:
            bad = bad | (D <= 0) if not isinstance(D, int) else bad
        p.true('refusals', bad)
        return
    for k, v in r.items():
        p.eq('as requested: ' + k, s[k], v)
    if instant is not None:
        p.eq('instant: DeltaN_reh', s.DeltaN_reh, 0, scale=1.)
        p.eq('instant: w_reh', s.w_reh, third(p))
        p.eq('instant: DeltaN_minus1', s.DeltaN_minus1, 0, scale=1.)
    today(p, B, h)
    history(p, B, g, True)


def geometry(p):
    """Mismatched or missing input."""
    K = p.choice('K', [1, -1])
    B = Background(p, K, 4)
    h = p.pos('h', sample=.7)
    O = p.pos('Omega', sample=.01)
    neg = p.var('nonpositive', hi=0, hiopen=False, sample=-.1)

    def refuse(name, *a, **k):
        p.eq(name, B.calibrate(*a, **k), ('raise', 'ValueError'))
    refuse('wrong sign', 'Omega_K0', Omega_K0=K * O, h=h)
    refuse('no curvature', 'Omega_K0', h=h)
    refuse('zero curvature', 'Omega_K0', Omega_K0=0, h=h)
    for m in 'Omega_K0', 'reheating':
        o = dict(Omega_K0=-K * O) if m == 'Omega_K0' else {}
        refuse('no h', m, **o)
        refuse('h not positive', m, h=neg, **o)
        refuse('N_star is derived', m, h=h, N_star=p.pos('N_star', sample=50.), **o)
    refuse('curvature is derived', 'reheating', h=h, Omega_K0=-K * O)
    F = Background(p, 0, 4, tag='_flat')
    p.eq('flat with curvature', F.calibrate('N_star', N_star=p.pos('N_star', sample=50.), Omega_K0=p.choice('sign', [1, -1]) * O),
         ('raise', 'ValueError'))


def jobs(tier):
    out = [Job('geometry', geometry)]
    for K in 1, -1:
        for keys in (), ('rho_reh_GeV',):
            out.append(Job('K=%d Omega_K0 %s' % (K, ' '.join(keys)), omega, dict(K=K, keys=keys)))
        for i, r in enumerate(INSTANT):
            out.append(Job('K=%d reheating instant %d' % (K, i), reheating, dict(K=K, keys=(), instant=r)))
        for keys in (('w_reh', 'DeltaN_reh'), ('w_reh', 'rho_reh_GeV')):
            out.append(Job('K=%d reheating %s' % (K, ' '.join(keys)), reheating, dict(K=K, keys=keys)))
    out.append(Job('recalibration', omega, dict(K=1, keys=(), first=True)))
    return out
