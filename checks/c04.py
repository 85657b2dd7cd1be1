"""C04: slow-roll e-folds, their inverse, and the end of inflation."""
import warnings
import numpy as np
import sympy as sp
from symex.engine import Job
from .common import PLAIN, TRUSTED, make_pot, make_phi, potentials_table

EXPLANATION = ('sr_phi2N, sr_N2phi and phi_end of each potential class are executed symbolically; z3 '
               'decides that the first potential slow-roll parameter is one at phi_end, that '
               'd(e-folds)/dphi = V/V\' with zero e-folds at phi_end, and that the inverse returns to '
               'the same e-folds on the far side of phi_end; the deprecated phi2efolds agree.')
BOUNDS = ('all parameters (where the code searches for a root: phi0 in 0.1..1000, p in 1..10 for the '
          'double wells, alpha in 0.01..100, p in 0.5..8 for the radion potential), all fields between phi_end and the maximum (or infinity), all e-folds > 0 '
          'for the inverse; arrays of length 2')
ASSUMPTIONS = list(TRUSTED) + [
    'Lambda, p, alpha, phi0 > 0',
    'scipy root_scalar returns a root in the bracket it was given; scipy interp1d is exact at its '
    'nodes (its error between nodes is outside the claim); lambertw(x, -1) is the lower real branch']
BND = {'DoubleWellPotential': dict(phi0=(0.1, 1000), p=(1, 10)),
       'DoubleWell4Potential': dict(phi0=(0.1, 1000)),
       'RadionGaugePotential': dict(alpha=(1e-2, 1e2), p=(0.5, 8))}


def field(p, cls, par, name='phi', sample=None):
    """A field between the minimum and the maximum."""
    if cls == 'NaturalPotential':
        u = p.var(name + '_frac', lo=0, hi=1, sample=0.6 if sample is None else sample)
        return par['phi0'] * u, u, 1 / par['phi0']
    if cls.startswith('DoubleWell'):
        u = p.var(name + '_frac', lo=0, hi=1, sample=0.7 if sample is None else sample)
        return par['phi0'] * (1 - u), u, -1 / par['phi0']
    x = p.pos(name, sample=5.1 if sample is None else sample * 9)
    return x, x, 1


def pot_for(p, cls, abstract=False):
    pot, par = make_pot(p, cls, bounds=BND.get(cls, {}))
    if abstract and p.mode != 'real':
        # the relation holds whatever the field at the end is
        pe = p.pos('phi_end')
        if 'phi0' in par:
            p.assume(pe < par['phi0'])
        pot.__dict__['phi_end'] = pe
    return pot, par


def end(p, cls):
    pot, par = pot_for(p, cls)
    pe = pot.phi_end
    p.eq('eps1V(phi_end)', pot.get_epsilon_1V(pe), 1)
    p.true('phi_end>0', pe >= 0)
    p.eq('N(phi_end)', pot.sr_phi2N(pe), 0, scale=1.)


def slope(p, cls, abstract):
    pot, par = pot_for(p, cls, abstract)
    phi, x, J = field(p, cls, par)
    N = pot.sr_phi2N(phi)
    if p.mode == 'real':
        h = 1e-4 * phi
        p.eq('dN/dphi', (pot.sr_phi2N(phi + h) - pot.sr_phi2N(phi - h)) / (2 * h),
             pot.V(phi) / pot.dV(phi), rtol=1e-3)
    else:
        p.eq('dN/dphi', p.diff(N, x) * J, pot.V(phi) / pot.dV(phi), rtol=1e-3, vtol=1e-3)


def inverse(p, cls, abstract):
    pot, par = pot_for(p, cls, abstract)
    if cls.startswith('DoubleWell'):
        # e-folds which the field range can provide
        u = p.var('u', lo=1e-3, hi=1 - 1e-3, sample=0.95)
        p.assume(par['phi0'] * u > pot.phi_end)
        N = pot.sr_phi2N(par['phi0'] * u)
    else:
        N = p.pos('N', sample=1.7)
    phi = pot.sr_N2phi(N)
    p.eq('N(phi(N))', pot.sr_phi2N(phi), N, rtol=1e-3, vtol=1e-3)


def beyond(p, cls, abstract):
    pot, par = pot_for(p, cls, abstract)
    N = p.pos('N', sample=1.7)
    phi = pot.sr_N2phi(N)
    p.true('side', pot.dV(phi) >= 0)
    if cls != 'StarobinskyPotential':
        p.true('beyond', phi >= pot.phi_end)


def arrays(p, cls, abstract):
    pot, par = pot_for(p, cls, abstract)
    a, _, _ = field(p, cls, par, 'a')
    b, _, _ = field(p, cls, par, 'b', sample=0.8)
    p.eq('phi2N', pot.sr_phi2N(np.array([a, b])), np.array([pot.sr_phi2N(a), pot.sr_phi2N(b)]))
    if cls == 'RadionGaugePotential' or cls.startswith('DoubleWell'):
        return
    M = p.pos('M', sample=1.7)
    N = p.pos('N', sample=.7)
    p.eq('N2phi', pot.sr_N2phi(np.array([M, N])), np.array([pot.sr_N2phi(M), pot.sr_N2phi(N)]))


def deprecated(p, cls):
    pot, par = make_pot(p, cls)
    phi, x, J = field(p, cls, par)
    kw = {} if cls == 'StarobinskyPotential' else dict(phi0=par['phi0'])
    if cls == 'NaturalPotential' and p.mode != 'real':
        # cosine is positive on (0, pi/2)
        p.assume(p.fn(lambda t: sp.cos(sp.pi * t / 2), x) > 0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        N = type(pot).phi2efolds(phi, **kw)
    p.eq('phi2efolds', N, pot.sr_phi2N(phi), scale=1e-3)


def quartic_slope(p):
    pot, par = make_pot(p, 'DoubleWell4Potential')
    phi, x, J = field(p, 'DoubleWell4Potential', par)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = type(pot).phi2efolds
        N = f(phi, phi0=par['phi0'])
        if p.mode == 'real':
            h = 1e-4 * phi
            d = (f(phi + h, phi0=par['phi0']) - f(phi - h, phi0=par['phi0'])) / (2 * h)
        else:
            d = p.diff(N, x) * J
    p.eq('dN/dphi', d, pot.V(phi) / pot.dV(phi), rtol=1e-3, vtol=1e-3)


def quartic_end(p):
    pot, par = make_pot(p, 'DoubleWell4Potential')
    e2 = type(pot).phi_end_squared(par['phi0'])
    p.eq('eps1V(phi_end)', pot.get_epsilon_1V(par['phi0'] - e2**(p.S(1) / 2)), 1)


def jobs(tier):
    out = []
    for c in PLAIN:
        out.append(Job(c + ':end', end, dict(cls=c)))
        for s, f in (('slope', slope), ('inverse', inverse), ('beyond', beyond), ('array', arrays)):
            if f is beyond and c.startswith('DoubleWell'):
                continue
            n = c + ':' + s
            out.append(Job(n, f, dict(cls=c, abstract=True),
                           fallback=Job(n, f, dict(cls=c, abstract=False))))
    for c in ('StarobinskyPotential', 'NaturalPotential', 'DoubleWell2Potential'):
        out.append(Job(c + ':deprecated', deprecated, dict(cls=c)))
    out.append(Job('DoubleWell4Potential:deprecated slope', quartic_slope))
    out.append(Job('DoubleWell4Potential:deprecated end', quartic_end))
    return out
