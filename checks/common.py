"""Shared pieces of the harnesses."""
import contextlib
import numpy as np
import sympy as sp

TRUSTED = ('numbers are mathematical reals: float rounding, overflow and NaN are outside the claim',
           'decimal literals stand for the exact decimal number, and division and powers of literals '
           'are exact')


def potentials_table():
    """class -> (constructor parameters, field domain)."""
    P = dict
    return {
        'MonomialPotential': P(par=dict(p=2.7), phi=('both', 3.1)),
        'LinearPotential': P(par={}, phi=('both', 3.1)),
        'QuadraticPotential': P(par={}, phi=('real', 3.1)),
        'CubicPotential': P(par={}, phi=('both', 3.1)),
        'QuarticPotential': P(par={}, phi=('both', 3.1)),
        'StarobinskyPotential': P(par={}, phi=('real', 3.1)),
        'NaturalPotential': P(par=dict(phi0=12.), phi=('real', 3.1)),
        'DoubleWellPotential': P(par=dict(phi0=12., p=2.7), phi=('below', 0.4)),
        'DoubleWell2Potential': P(par=dict(phi0=12.), phi=('real', 3.1)),
        'DoubleWell4Potential': P(par=dict(phi0=12.), phi=('real', 3.1)),
        'TmodelPotential': P(par=dict(p=1.7, alpha=1.3), phi=('pos', 3.1)),
        'RadionGaugePotential': P(par=dict(p=2.7, alpha=1.3), phi=('pos', 3.1)),
        'RadionGauge2Potential': P(par=dict(alpha=1.3), phi=('real', 3.1)),
        'StarobinskyGaussianDipPotential': P(par=dict(phi_feature=5.1, a_feature=.1, b_feature=.7),
                                             phi=('real', 4.7), feature=True),
        'StarobinskyTanhStepPotential': P(par=dict(phi_feature=5.1, a_feature=.1, b_feature=.7),
                                          phi=('real', 4.7), feature=True),
    }


PLAIN = [k for k, v in potentials_table().items() if not v.get('feature')]
FEATURE = [k for k, v in potentials_table().items() if v.get('feature')]


def make_pot(p, cls, lam=True, bounds={}, **fixed):
    """Build the potential with symbolic parameters; returns (potential, parameters)."""
    pp = p.mod('primpy.potentials')
    t = potentials_table()[cls]
    par = {}
    for k, s in t['par'].items():
        if k in fixed:
            par[k] = fixed[k]
        elif k in ('a_feature', 'phi_feature'):
            par[k] = p.real('par_' + k, sample=s)
        else:
            lo, hi = bounds.get(k, (0, None))
            par[k] = p.pos('par_' + k, sample=s, lo=lo, hi=hi)
    kw = dict(par)
    if lam:
        kw['Lambda'] = p.pos('Lambda', sample=0.3)
    return getattr(pp, cls)(**kw), par


def make_phi(p, cls, par, name='phi', sample=None):
    """The field, over the whole domain on which the potential is real.

    Returns (phi, coordinate x, dx/dphi): V is differentiated with respect to x.
    """
    kind, s = potentials_table()[cls]['phi']
    s = sample if sample is not None else s
    if kind == 'pos':
        x = p.pos(name, sample=s)
        return x, x, 1
    if kind == 'both':
        x = p.pos(name, sample=s)
        if p.choice(name + '_sign', [1, -1]) == 1:
            return x, x, 1
        return -x, x, -1
    if kind == 'below':
        # phi < phi0: the coordinate x = 1 - phi/phi0 > 0
        x = p.pos('x_' + name, sample=s)
        return par['phi0'] * (1 - x), x, -1 / par['phi0']
    x = p.real(name, sample=s)
    return x, x, 1


@contextlib.contextmanager
def library(p, name, fn, *modules):
    """Replace a scipy function, called by the given modules, by its contract for the duration."""
    if p.mode == 'sym':
        old = p.hooks.get(name)
        p.hooks[name] = fn
        try:
            yield
        finally:
            p.hooks[name] = old
        return
    import scipy.integrate
    import scipy.optimize
    import scipy.interpolate
    saved = []
    for m in (scipy.integrate, scipy.optimize, scipy.interpolate) + modules:
        if hasattr(m, name):
            saved.append((m, getattr(m, name)))
            setattr(m, name, fn)
    try:
        yield
    finally:
        for m, f in saved:
            setattr(m, name, f)
