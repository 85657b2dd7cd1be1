"""C03: potential slow-roll parameters."""
import numpy as np
from symex.engine import Job
from .common import PLAIN, TRUSTED, make_pot, make_phi

EXPLANATION = ('For each potential class the executed V gives the definition of the four parameters by '
               'symbolic differentiation; z3 decides that the executed closed forms equal it for all '
               'fields and parameters, that the first equals (dV/V)^2/2 of the executed derivative, '
               'and that array input is elementwise.')
BOUNDS = ('all parameters and all fields where the potential is real and non-zero and the quotients '
          'are defined; arrays of length 2')
ASSUMPTIONS = list(TRUSTED) + ['Lambda, p, alpha, phi0 > 0']
NAMES = ('get_epsilon_1V', 'get_epsilon_2V', 'get_epsilon_3V', 'get_epsilon_4V')


def definition(p, cls):
    pot, par = make_pot(p, cls)
    phi, x, J = make_phi(p, cls, par)
    V = pot.V(phi)
    p.assume(phi != 0)

    def d(e):
        return p.diff(e, x) * J
    q = d(V) / V
    e = [q**2 / 2]
    for _ in range(3):
        e.append(-q * d(e[-1]) / e[-1])
    for n, f in enumerate(NAMES):
        p.eq(f, getattr(pot, f)(phi), e[n])
    p.eq('from_dV', pot.get_epsilon_1V(phi), (pot.dV(phi) / V)**2 / 2)


def arrays(p, cls):
    pot, par = make_pot(p, cls)
    a, _, _ = make_phi(p, cls, par, 'phi_a')
    b, _, _ = make_phi(p, cls, par, 'phi_b', sample=0.8)
    p.assume(a != 0)
    p.assume(b != 0)
    for f in NAMES:
        g = getattr(pot, f)
        p.eq(f, g(np.array([a, b])), np.array([g(a), g(b)]))


def jobs(tier):
    return [Job(c + s, f, dict(cls=c)) for c in PLAIN
            for s, f in (('', definition), (':array', arrays))]
