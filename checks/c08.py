"""C08: the two formulations describe the same universe."""
import numpy as np
import sympy as sp
from symex.engine import Job
from .common import TRUSTED
from .background import State, state_vector, columns

PRELOAD = ('primpy.time.inflation', 'primpy.efolds.inflation')
EXPLANATION = ('One generic physical state is handed to both formulations, each driven with the exact '
               'derivatives in its own time variable; z3 decides that the observables agree with each '
               'other and with their recursive definition for all states.')
BOUNDS = ('all states with positive scale factor, Hubble rate and energy density, nonzero velocity and, where a '
          'quantity divides by it, nonzero derivative of the Hubble rate and nonzero second flow parameter; '
          'arbitrary potential value and first four derivatives; curvature -1, 0, 1; scalars and arrays of length 2')
ASSUMPTIONS = list(TRUSTED) + ['the derivatives handed in are the exact ones (C07 decides those)']


def flow(p, K, kind):
    s = State(p, K)
    T, N = s.jets('t'), s.jets('N')
    p.assume(T['dH'] != 0)
    eT, eN = s.eqT(), s.eqN()
    e1 = -T['dH'] / s.H**2
    e2 = (s.D(e1) / s.H) if kind else (s.DN(e1) / e1)
    if p.mode != 'real':
        p.assume(e2 != 0)
    e3 = s.D(s.D(e1)) / s.H**2 if kind else (s.DN(e2) / e2)
    for w, q, J in (('t', eT, T), ('N', eN, N)):
        H = {k: J[k] for k in ('H', 'dH', 'd2H', 'd3H')}
        p.eq(w + ' eps1', q.get_epsilon_1H(H=s.H, dH=J['dH']), e1)
        p.eq(w + ' eps2', q.get_epsilon_2H(H=s.H, dH=J['dH'], d2H=J['d2H'], kind=kind), e2)
        p.eq(w + ' eps3', q.get_epsilon_3H(kind=kind, **H), e3)


def delta(p, K):
    s = State(p, K)
    T, N = s.jets('t'), s.jets('N')
    eT, eN = s.eqT(), s.eqN()
    d1 = T['d2phi'] / (s.H * s.dphi)
    d2 = T['d3phi'] / (s.H**2 * s.dphi)
    d3 = T['d4phi'] / (s.H**3 * s.dphi)
    for w, q, J in (('t', eT, T), ('N', eN, N)):
        a = {k: J[k] for k in ('H', 'dH', 'dphi', 'd2phi')}
        p.eq(w + ' delta1', q.get_delta_1(**a), d1)
        a.update(d2H=J['d2H'], d3phi=J['d3phi'])
        p.eq(w + ' delta2', q.get_delta_2(**a), d2)
        a.update(d3H=J['d3H'], d4phi=J['d4phi'])
        p.eq(w + ' delta3', q.get_delta_3(**a), d3)


def same(p, K):
    """w, inflating, H on solution vectors and solution arrays."""
    S = [State(p, K, moving=False), State(p, K, tag='_b', moving=False)]
    ob = []
    cols = {}
    eqs = {}
    for w in 't', 'N':
        c = []
        for s in S:
            q = s.eqT() if w == 't' else s.eqN()
            vals = dict(phi=s.phi, dphidt=s.dphi, _N=s.N, dphidN=s.q)
            c.append(state_vector(p, q, vals))
        cols[w] = c
        eqs[w] = q
    for i, s in enumerate(S):
        rho = s.dphi**2 / 2 + s.V0
        p.assume(rho > 0)
        p.assume(6 * s.H**2 != s.dphi**2)
    for w in 't', 'N':
        for i, s in enumerate(S):
            q = s.eqT() if w == 't' else s.eqN()
            x = p.real('t', sample=2.) if w == 't' else s.N
            y = cols[w][i]
            n = '%s[%d] ' % (w, i)
            rho, prs = s.dphi**2 / 2 + s.V0, s.dphi**2 / 2 - s.V0
            p.eq(n + 'H2', q.H2(x, y), s.H**2)
            p.eq(n + 'H', q.H(x, y), s.H)
            W, I = q.w(x, y), q.inflating(x, y)
            p.eq(n + 'w', W, prs / rho)
            p.eq(n + 'inflating', I, s.V0 - s.dphi**2)
            if i == 0:
                acc = s.H**2 + K / s.a**2 - s.dphi**2 / 2        # a''/a
                third = p.S(1) / 3
                for nm, a, b in (('w<-1/3', W < -third, I > 0), ('accelerates', acc > 0, I > 0),
                                 ('w=-1/3', W <= -third, I >= 0)):
                    if p.mode == 'real':
                        p.true(n + nm, bool(a) == bool(b) or abs(I) < 1e-6 * abs(s.V0))
                    else:
                        p.true(n + nm, (a & b) | (~a & ~b))
    # arrays: both columns at once, through one potential evaluated elementwise
    for w in 't', 'N':
        y = columns(p, cols[w])
        q = S[0].eqT() if w == 't' else S[0].eqN()
        V0, V1 = [np.array([getattr(s, k) for s in S]) for k in ('V0', 'V1')]

        class Two:
            def V(self, phi):
                return V0

            def dV(self, phi):
                return V1
        q.potential = Two()
        x = np.array([s.N for s in S])
        p.eq(w + ' H2 array', q.H2(x, y), np.array([s.H**2 for s in S]))
        p.eq(w + ' inflating array', q.inflating(x, y), np.array([s.V0 - s.dphi**2 for s in S]))
        p.eq(w + ' w array', q.w(x, y), np.array(
            [(s.dphi**2 / 2 - s.V0) / (s.dphi**2 / 2 + s.V0) for s in S]))


def jobs(tier):
    out = []
    for K in (0, 1, -1):
        for kind in (None, 'Gong'):
            out.append(Job('flow parameters K=%d %s' % (K, kind or 'logarithmic'), flow,
                           dict(K=K, kind=kind)))
        out.append(Job('acceleration parameters K=%d' % K, delta, dict(K=K)))
        out.append(Job('equation of state K=%d' % K, same, dict(K=K)))
    return out
