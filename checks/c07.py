"""C07: background equations."""
import numpy as np
import sympy as sp
from symex.engine import Job
from .common import TRUSTED
from .background import State, state_vector

PRELOAD = ('primpy.time.inflation', 'primpy.efolds.inflation')
EXPLANATION = ('The background equations are executed on a generic state (scale factor, Hubble rate, field, velocity, '
               'potential jet); the oracle is the exact chain rule along the Klein-Gordon and Raychaudhuri '
               'flow; z3 decides equality for all states and for each curvature.')
BOUNDS = ('all states with positive scale factor and Hubble rate, any velocity (nonzero where it divides), arbitrary '
          'potential value and first four derivatives, curvature -1, 0, 1; derivatives up to the order '
          'offered by the code')
ASSUMPTIONS = list(TRUSTED) + ['the potential enters only through its value and derivatives at the current field '
                               '(C01 decides those)']


def flow(p, K, which):
    s = State(p, K, moving=False)
    T = which == 't'
    eq = s.eqT() if T else s.eqN()
    u = s.dphi if T else s.q
    if not T:
        # a velocity with 6 H^2 > dphi^2: positive potential-curvature balance
        p.assume(6 * s.H**2 != s.dphi**2)
    H2 = eq.get_H2(N=s.N, dphi=u, V=s.V0, K=K)
    p.eq('Friedmann', H2, s.H**2)
    dH = eq.get_dH(N=s.N, H=s.H, dphi=u, K=K)
    dH_H = eq.get_dH_H(N=s.N, H2=s.H**2, dphi=u, K=K)
    Hdot = K / s.a**2 - s.dphi**2 / 2
    p.eq('dH', dH, Hdot if T else Hdot / s.H)
    p.eq('dH/H', dH_H, Hdot / s.H if T else Hdot / s.H**2)
    d2phi = eq.get_d2phi(H2=s.H**2, dH_H=dH_H, dphi=u, dV=s.V1)
    pdot = -3 * s.H * s.dphi - s.V1
    if T:
        p.eq('d2phi', d2phi, pdot)
        # the constraint is conserved by the values the code itself reports
        p.eq('constraint', (s.dphi * d2phi + s.V1 * s.dphi) / 3 + 2 * K * s.H / s.a**2, 2 * s.H * dH)
    else:
        p.eq('d2phi', d2phi, pdot / s.H**2 - s.dphi * Hdot / s.H**3)
        lhs = (s.V1 * s.q / 3 + s.H * dH * s.q**2 / 3 + s.H**2 * s.q * d2phi / 3 + 2 * K / s.a**2)
        p.eq('constraint', lhs, 2 * s.H * dH)


def jets(p, K, which):
    s = State(p, K, moving=False)
    eq = s.eqT() if which == 't' else s.eqN()
    j = s.jets(which)
    V = dict(dV=s.V1, d2V=s.V2, d3V=s.V3)
    H, dH, d2H, d3H = [j[k] for k in ('H', 'dH', 'd2H', 'd3H')]
    u, d2, d3 = [j[k] for k in ('dphi', 'd2phi', 'd3phi')]
    # each function is decided on its own, driven with the exact lower derivatives
    p.eq('dH', eq.get_dH(N=s.N, H=H, dphi=u, K=K), dH)
    p.eq('d2phi', eq.get_d2phi(H2=H**2, dH_H=dH / H, dphi=u, dV=s.V1), d2)
    p.eq('d2H', eq.get_d2H(N=s.N, H=H, dH=dH, dphi=u, d2phi=d2, K=K), d2H)
    p.eq('d3phi', eq.get_d3phi(H=H, dH=dH, d2H=d2H, dphi=u, d2phi=d2, dV=s.V1, d2V=s.V2), d3)
    p.eq('d3H', eq.get_d3H(N=s.N, H=H, dH=dH, d2H=d2H, dphi=u, d2phi=d2, d3phi=d3, K=K), d3H)
    p.eq('d4phi', eq.get_d4phi(H=H, dH=dH, d2H=d2H, d3H=d3H, dphi=u, d2phi=d2, d3phi=d3, **V),
         j['d4phi'])


def ode(p, K, which, eta, time):
    """The right-hand side handed to the integrator."""
    s = State(p, K, moving=False)
    pp = s.p.real('previous', sample=0.4)
    qq = s.p.real('elapsed', sample=0.6)
    if which == 't':
        eq = s.eqT(track_eta=eta)
        t = p.real('t', sample=4.2)
        vals = dict(phi=s.phi, dphidt=s.dphi, _N=s.N, eta=pp)
        y = state_vector(p, eq, vals)
        dy = eq(t, y)
        p.eq('phi', dy[eq.idx['phi']], s.dphi)
        p.eq('dphidt', dy[eq.idx['dphidt']], -3 * s.H * s.dphi - s.V1)
        p.eq('_N', dy[eq.idx['_N']], s.H)
        rate = 1
        p.eq('number of variables', len(eq.idx), 4 if eta else 3)
    else:
        p.assume(6 * s.H**2 != s.dphi**2)
        eq = s.eqN(track_eta=eta, track_time=time)
        vals = dict(phi=s.phi, dphidN=s.q, t=qq, eta=pp)
        y = state_vector(p, eq, vals)
        dy = eq(s.N, y)
        Hdot = K / s.a**2 - s.dphi**2 / 2
        p.eq('phi', dy[eq.idx['phi']], s.q)
        p.eq('dphidN', dy[eq.idx['dphidN']],
             (-3 * s.H * s.dphi - s.V1) / s.H**2 - s.dphi * Hdot / s.H**3)
        if time:
            p.eq('t', dy[eq.idx['t']], 1 / s.H)
        rate = s.H
        p.eq('number of variables', len(eq.idx), 2 + eta + time)
    if eta:
        p.eq('eta', dy[eq.idx['eta']], 1 / (s.a * rate))
    p.eq('shape', len(dy), len(y))
    p.eq('H', eq.H(t if which == 't' else s.N, y), s.H)
    p.eq('V', eq.V(None if which == 't' else s.N, y), s.V0)
    p.eq('dVdphi', eq.dVdphi(None, y) if which == 't' else eq.dVdphi(s.N, y), s.V1)
    p.eq('d2Vdphi2', eq.d2Vdphi2(None, y) if which == 't' else eq.d2Vdphi2(s.N, y), s.V2)


def jobs(tier):
    out = []
    for w in ('t', 'N'):
        for K in (0, 1, -1):
            out.append(Job('%s K=%d flow' % (w, K), flow, dict(K=K, which=w)))
            out.append(Job('%s K=%d jets' % (w, K), jets, dict(K=K, which=w)))
            for eta in (False, True):
                for tm in ((False, True) if w == 'N' else (False,)):
                    out.append(Job('%s K=%d ode%s%s' % (w, K, ' eta' * eta, ' time' * tm), ode,
                                   dict(K=K, which=w, eta=eta, time=tm)))
    return out
