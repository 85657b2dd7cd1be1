"""C06: Hubble-flow parameters from potential slow-roll parameters."""
import numpy as np
import sympy as sp
from symex.engine import Job
from symex.sym import Sym
from .common import PLAIN, FEATURE, TRUSTED, make_pot

EXPLANATION = ('The series that solves the exact relations between the two hierarchies order by order is '
               'derived from scratch; z3 decides, for all values of the potential slow-roll '
               'parameters, that the executed code of every potential class returns its truncation.')
BOUNDS = ('all values of the four potential slow-roll parameters; orders: third for the first three '
          'Hubble-flow parameters, second for the fourth, with the fifth potential parameter zero; '
          'arrays of length 2')
ASSUMPTIONS = list(TRUSTED) + [
    'oracle: e1V = e1 (1 + e2/(2(3-e1)))^2 and d ln(e_n)/dN = e_(n+1), with '
    'd ln(e_nV)/dN = e_(n+1)V sqrt(e1/e1V)']
SV = sp.symbols('v1:5')
_O = []


def oracle():
    if _O:
        return _O[0]
    v = list(SV) + [sp.S.Zero]

    def trunc(e, n):
        P = sp.Poly(sp.expand(e), *SV)
        return sum(c * sp.prod([s**k for s, k in zip(SV, m)]) for m, c in P.terms() if sum(m) <= n)

    def inverse(u, n):
        d = sp.expand(u - 1)
        out, pw = sp.S.One, sp.S.One
        for _ in range(n):
            pw = trunc(-pw * d, n)
            out += pw
        return out

    e1, e2 = v[0], v[1]
    for _ in range(5):
        inv = trunc(sum(e1**k / sp.Integer(3)**(k + 1) for k in range(4)), 4)
        x = trunc(e2 * inv / 2, 4)
        ratio = trunc(sum((-x)**k for k in range(5)), 4)      # sqrt(e1/e1V)
        e1 = trunc(v[0] * ratio**2, 4)

        def ddN(f):
            return trunc(sum(sp.diff(f, SV[i]) * SV[i] * v[i + 1] for i in range(4)) * ratio, 5)
        e2 = trunc(sp.expand(ddN(e1) / v[0]) * inverse(sp.expand(e1 / v[0]), 4), 4)
    e3 = trunc(sp.expand(ddN(e2) / v[1]) * inverse(sp.expand(e2 / v[1]), 4), 4)
    e3l = trunc(e3, 2)          # divisible by v3 up to second order
    e4 = trunc(sp.expand(ddN(e3l) / v[2]) * inverse(sp.expand(e3l / v[2]), 2), 2)
    _O.append((trunc(e1, 3), trunc(e2, 3), trunc(e3, 3), e4))
    return _O[0]


def series(p, cls):
    pot, _ = make_pot(p, cls)
    e = [p.pos('e%dV' % n, sample=s) for n, s in ((1, .1), (2, .2), (3, .3), (4, .4))]
    f = [p.pos('f%dV' % n, sample=s) for n, s in ((1, .3), (2, .1), (3, .2), (4, .15))]

    def put(vals):
        for n in range(4):
            setattr(pot, 'get_epsilon_%dV' % (n + 1), lambda phi, n=n: vals[n])
    put(e)
    get = [pot.get_epsilon_1, pot.get_epsilon_2, pot.get_epsilon_3, pot.get_epsilon_4]
    one = [g(phi=5) for g in get]
    put([np.array([a, b]) for a, b in zip(e, f)])
    two = [g(phi=np.array([5., 6.])) for g in get]
    ref = oracle()
    for n in range(4):
        if p.mode == 'real':
            R = [float(ref[n].subs(dict(zip(SV, x)))) for x in (e, f)]
        else:
            R = [Sym(ref[n].subs(dict(zip(SV, [t.e for t in x])), simultaneous=True))
                 for x in (e, f)]
        p.eq('eps%d' % (n + 1), one[n], R[0])
        p.eq('eps%d:array' % (n + 1), two[n], np.array(R))


def jobs(tier):
    return [Job(c, series, dict(cls=c)) for c in PLAIN + FEATURE]
