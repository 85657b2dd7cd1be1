"""C05: slow-roll predictions and the amplitude calibration of potentials."""
import warnings
import numpy as np
import sympy as sp
from symex.engine import Job
from .common import PLAIN, FEATURE, TRUSTED, make_pot, potentials_table
from .c04 import field, BND

EXPLANATION = ('The conversions between e-folds and spectral index or tensor-to-scalar ratio are executed one '
               'after the other on symbolic input and z3 decides that they are mutual inverses; the '
               'calibration of Lambda is executed on symbolic amplitudes and z3 decides that '
               'V/(24 pi^2 eps_1V) of the calibrated potential is the requested amplitude.')
BOUNDS = ('all e-folds > 0 (both > 2 where the spectral index has to stay below one), all parameters; '
          'calibration for all amplitudes and all fields between minimum and maximum')
ASSUMPTIONS = list(TRUSTED) + ['Lambda, p, alpha, phi0, A_s > 0']
CONV = ['MonomialPotential', 'LinearPotential', 'QuadraticPotential', 'CubicPotential',
        'QuarticPotential', 'StarobinskyPotential', 'NaturalPotential']
POWER = {'LinearPotential': 1, 'QuadraticPotential': 2, 'CubicPotential': 3, 'QuarticPotential': 4}


def kw_for(cls, par):
    return {} if cls == 'StarobinskyPotential' else dict(par)


def conversions(p, cls):
    pot, par = make_pot(p, cls)
    kw = kw_for(cls, par)
    N = p.pos('N', sample=55.)
    M = p.pos('M', sample=41.)
    ns = pot.sr_Nstar2ns(N, **kw)
    p.eq('ns2Nstar(Nstar2ns(N))', pot.sr_ns2Nstar(ns, **kw), N)
    r = pot.sr_Nstar2r(N, **kw)
    p.eq('r2Nstar(Nstar2r(N))', pot.sr_r2Nstar(r, **kw), N)
    if cls != 'StarobinskyPotential':
        p.eq('r=16eps1V', r, 16 * pot.get_epsilon_1V(pot.sr_N2phi(N)))
    p.true('red', ns < 1)
    arr = np.array([N, M])
    for f in ('sr_Nstar2ns', 'sr_Nstar2r'):
        g = getattr(pot, f)
        p.eq(f + ':array', g(arr, **kw), np.array([g(N, **kw), g(M, **kw)]))
    if cls in POWER:
        # the fixed powers agree with the general power
        gen = p.mod('primpy.potentials').MonomialPotential
        for f in ('sr_Nstar2ns', 'sr_Nstar2r'):
            p.eq(f + ':power', getattr(pot, f)(N), getattr(gen, f)(N, p=POWER[cls]))


def back(p, cls):
    """From n_s or r to e-folds and back."""
    pot, par = make_pot(p, cls)
    kw = kw_for(cls, par)
    s = p.var('tilt', lo=0, hi=1, sample=0.035)
    if cls == 'NaturalPotential':
        p.assume(par['phi0']**2 * s > 10)
    N = pot.sr_ns2Nstar(1 - s, **kw)
    p.eq('Nstar2ns(ns2Nstar(n_s))', pot.sr_Nstar2ns(N, **kw), 1 - s)
    r = p.var('r', lo=0, hi=16, sample=0.07)
    p.eq('Nstar2r(r2Nstar(r))', pot.sr_Nstar2r(pot.sr_r2Nstar(r, **kw), **kw), r)


def refuse(p):
    """Natural inflation cannot produce a tilt smaller than 1/f^2."""
    pp = p.mod('primpy.potentials')
    err = p.mod('primpy.exceptionhandling').PrimpyError
    phi0 = p.pos('phi0', sample=3.)
    s = p.var('tilt', lo=0, hi=1, sample=0.035)
    pi2 = 9.8 if p.mode == 'real' else p.S(sp.pi**2)
    if p.choice('side', ['below', 'above']) == 'below':
        p.assume(phi0**2 * s < pi2)
        p.raises('rejected', err, lambda: pp.NaturalPotential.sr_ns2Nstar(1 - s, phi0=phi0))
    else:
        p.assume(phi0**2 * s > (9.9 if p.mode == 'real' else pi2))
        p.true('accepted', p.outcome(
            lambda: pp.NaturalPotential.sr_ns2Nstar(1 - s, phi0=phi0))[0] == 'ok')


def amplitude(p, cls, how):
    pp = p.mod('primpy.potentials')
    _, par = make_pot(p, cls, lam=False, bounds=BND.get(cls, {}))
    A = p.pos('A_s', sample=2e-9)
    kw = dict(par, A_s=A)
    if how == 'phi':
        phi, x, _ = field(p, cls, par)
        kw['phi_star'] = phi
    else:
        N = p.pos('N', sample=55.)
        kw['N_star'] = N
    lam = p.choice('Lambda', ['default', 'given'])
    n = len(p.warnings)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if lam == 'given':
            kw['Lambda'] = p.pos('L', sample=0.3)
            if p.mode != 'real':
                p.assume(kw['Lambda'] != 1)
        pot = getattr(pp, cls)(**kw)
    if how == 'N':
        phi = pot.sr_N2phi(N)
    p.eq('A_s', pot.V(phi) / (24 * sp_pi2(p) * pot.get_epsilon_1V(phi)), A)
    if how == 'phi' and cls != 'NaturalPotential':
        p.true('positive', pot.Lambda > 0)
    if lam == 'given':
        p.true('warned', (len(w) if p.mode == 'real' else len(p.warnings) - n) >= 1)
    L, ps, Ns = pot.sr_As2Lambda(A_s=A, phi_star=phi if how == 'phi' else None,
                                 N_star=None if how == 'phi' else N)
    p.eq('again', L, pot.Lambda)
    p.eq('phi_star', ps, phi)
    p.eq('N_star', Ns, pot.sr_phi2N(phi) if how == 'phi' else N)


def sp_pi2(p):
    return np.pi**2 if p.mode == 'real' else p.S(sp.pi**2)


def refusals(p, cls):
    pp = p.mod('primpy.potentials')
    pot, par = make_pot(p, cls)
    A = p.pos('A_s', sample=2e-9)
    C = getattr(pp, cls)
    p.raises('A_s without scale', p.mod('primpy.exceptionhandling').PrimpyError,
             lambda: C(A_s=A, **par))
    N, phi = p.real('N_asked', sample=55.), p.real('phi_asked', sample=5.)
    p.raises('both', Exception, lambda: C(A_s=A, N_star=N, phi_star=phi, **par))
    p.raises('both with zero e-folds', Exception, lambda: C(A_s=A, N_star=0, phi_star=phi, **par))
    p.raises('both with zero field', Exception, lambda: C(A_s=A, N_star=50, phi_star=0, **par))
    p.raises('neither', Exception, lambda: pot.sr_As2Lambda(A_s=A, N_star=None, phi_star=None))
    p.raises('both at once', Exception, lambda: pot.sr_As2Lambda(A_s=A, N_star=N, phi_star=phi))
    p.raises('unknown keyword', Exception, lambda: C(Lambda=1, not_a_parameter=2, **par))
    p.eq('default Lambda', C(**par).Lambda, 1)


def jobs(tier):
    out = []
    for c in CONV:
        out.append(Job(c + ':conversions', conversions, dict(cls=c)))
        out.append(Job(c + ':back', back, dict(cls=c)))
    out.append(Job('Natural:refuse', refuse))
    for c in PLAIN + FEATURE:
        out.append(Job(c + ':amplitude_phi', amplitude, dict(cls=c, how='phi')))
        out.append(Job(c + ':refusals', refusals, dict(cls=c)))
        if not c.startswith('DoubleWell'):
            out.append(Job(c + ':amplitude_N', amplitude, dict(cls=c, how='N')))
    return out
