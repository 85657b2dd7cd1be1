"""C02: the inverse potential."""
import numpy as np
from symex.engine import Job
from .common import PLAIN, TRUSTED, make_pot, potentials_table

EXPLANATION = ('inv_V of every potential class without an added feature is executed on a symbolic potential '
               'value; z3 decides that V maps the result back to it, and that the result lies on the '
               'branch next to the minimum at zero.')
BOUNDS = ('all parameters and all values strictly inside the range of the potential; arrays of '
          'length 2 for the elementwise obligation')
ASSUMPTIONS = list(TRUSTED) + ['Lambda, p, alpha, phi0 > 0']
UNBOUNDED = ('MonomialPotential', 'LinearPotential', 'QuadraticPotential', 'CubicPotential',
             'QuarticPotential')


def value(p, cls, pot, name='v', sample=0.37):
    """A value strictly inside the range of the potential."""
    if cls in UNBOUNDED:
        return p.pos(name, sample=sample)
    u = p.var(name + '_frac', lo=0, hi=1, sample=sample)
    return u * pot.Lambda**4


def inverse(p, cls):
    pot, par = make_pot(p, cls)
    v = value(p, cls, pot)
    phi = pot.inv_V(v)
    p.eq('V(inv_V(v))', pot.V(phi), v)
    p.true('branch', phi > 0)
    if 'phi0' in potentials_table()[cls]['par']:
        p.true('branch_top', phi < par['phi0'])


def arrays(p, cls):
    pot, par = make_pot(p, cls)
    a = value(p, cls, pot, 'a')
    b = value(p, cls, pot, 'b', sample=0.81)
    p.eq('inv_V', pot.inv_V(np.array([a, b])), np.array([pot.inv_V(a), pot.inv_V(b)]))


def jobs(tier):
    return [Job(c + s, f, dict(cls=c)) for c in PLAIN for s, f in (('', inverse), (':array', arrays))]
