"""C01: derivatives of every potential."""
import numpy as np
from symex.engine import Job
from .common import PLAIN, FEATURE, TRUSTED, make_pot, make_phi

EXPLANATION = ('Each potential class is executed on a symbolic field value and symbolic parameters; '
               'its V is differentiated symbolically and z3 decides, for all values at once, that '
               'dV, d2V, d3V and d4V as executed equal the derivatives.')
BOUNDS = ('all real parameters and field values in the domain where the potential is real (positive '
          'field for non-integer powers); arrays of length 2 for the elementwise obligation')
ASSUMPTIONS = list(TRUSTED) + ['Lambda, p, alpha, phi0, b_feature > 0']
ORD = ('dV', 'd2V', 'd3V', 'd4V')


def derivs(p, cls):
    pot, par = make_pot(p, cls)
    phi, x, J = make_phi(p, cls, par)
    p.assume(phi != 0)
    V = pot.V(phi)
    for n, f in enumerate(ORD, 1):
        p.eq(f, getattr(pot, f)(phi), p.diff(V, x, n) * J**n)


def arrays(p, cls):
    pot, par = make_pot(p, cls)
    a, _, _ = make_phi(p, cls, par, 'phi_a')
    b, _, _ = make_phi(p, cls, par, 'phi_b', sample=0.8)
    p.assume(a != 0)
    p.assume(b != 0)
    arr = np.array([a, b])
    for f in ('V',) + ORD:
        g = getattr(pot, f)
        r = g(arr)
        if np.ndim(r) == 0 and not hasattr(r, '__len__'):
            r = np.array([r, r])     # constant derivatives may stay scalar
        p.eq(f, r, np.array([g(a), g(b)]))


def jobs(tier):
    out = []
    for c in PLAIN + FEATURE:
        out.append(Job(c, derivs, dict(cls=c)))
        out.append(Job(c + ':array', arrays, dict(cls=c)))
    return out
