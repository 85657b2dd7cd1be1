"""A generic finished background solution, ready to be calibrated."""
import warnings
import numpy as np
import sympy as sp
from scipy.integrate._ivp.ivp import OdeResult
from symex import shim
from symex.sym import Sym, to_expr
from .background import columns, vec

nan = float('nan')


class FlatPot:
    """Potential known only at the end of inflation."""

    def __init__(self, V):
        self.v = V

    def V(self, phi):
        return self.v + 0 * phi

    def dV(self, phi):
        return 0 * phi

    d2V = d3V = d4V = dV


def flow_functions(Base, given):
    """Stand-ins for the derivatives and flow parameters, called like the declared ones; zero unless given."""
    import inspect

    def stand_in(name, f):
        sig = inspect.signature(getattr(Base, name))

        def g(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            return f(**b.arguments)
        return staticmethod(g)

    def zero(**k):
        return 0 * k['H'] if 'H' in k else 0 * k['H2']
    names = ('get_dH', 'get_dH_H', 'get_d2phi', 'get_d2H', 'get_d3phi', 'get_d3H', 'get_d4phi', 'get_epsilon_1H',
             'get_epsilon_2H', 'get_epsilon_3H', 'get_delta_1', 'get_delta_2', 'get_delta_3')
    return {n: stand_in(n, given.get(n, zero)) for n in names}


def equations(p, K, V_end, table=None):
    """Equations whose solution carries the Hubble rate, equation of state and criterion as rows."""
    Base = p.mod('primpy.inflation').InflationEquations
    table = table or {}

    class Eq(Base):
        def __init__(self):
            super().__init__(K, FlatPot(V_end))
            self._set_independent_variable('t')
            self.add_variable('_N', 'phi', 'dphidt', 'row_H', 'row_w', 'row_i')

        def H(self, x, y):
            return y[3]

        def H2(self, x, y):
            return y[3]**2

        def w(self, x, y):
            return y[4]

        def inflating(self, x, y):
            return y[5]

        locals().update(flow_functions(Base, {'get_epsilon_1H': lambda **k: 0 * k['H'] + 1 / 128}))
    for k, f in table.items():
        setattr(Eq, k, f)
    return Eq()


def hooks(p):
    p.hooks['interp1d'] = shim.linear_interp1d
    if p.mode == 'sym':
        def der(o, v):
            return [p.real('spline%d' % i, sample=-.03 + i / 100) for i in range(4)]
        p.hooks['spline_derivatives'] = der


class Background:
    """Inflating from the start of the grid to its end, n nodes in between."""

    def __init__(self, p, K, n=4, tag='', table=None, partial=False, grid=False,
                 dn=(3., 20., 11., 17., 14., 6.)):
        hooks(p)
        self.p, self.K = p, K
        N = [p.real('N_b' + tag, sample=10.)]
        L = [p.real('L_b' + tag, sample=-1.)]
        for i in range(n + 1):
            # grid: known spacing, unknown offsets
            N.append(N[-1] + (p.S(int(dn[i])) if grid else p.pos('dN%d%s' % (i, tag), sample=dn[i])))
            L.append(L[-1] + (p.S(int(dn[i]) - i) if grid else p.pos('dL%d%s' % (i, tag), sample=.9 * dn[i])))
        self.N, self.L = N, L
        H = [np.exp(a - b) for a, b in zip(L, N)]
        self.H = H
        self.V_end = p.pos('V_end' + tag, sample=3e-11)
        self.eq = equations(p, K, self.V_end, table)
        rows = [[a, 5. - i, -.1, h, -.9, 1.] for i, (a, h) in enumerate(zip(N, H))]
        if not partial:
            rows[-1][4:] = [-1 / 3, 0.]
        s = OdeResult()
        s.t = vec(p, list(range(1, n + 3)))
        s.y = columns(p, [vec(p, r) for r in rows])
        s.event_keys = ['Inflation_dir1_term0', 'Inflation_dir-1_term1']
        s.t_events = [np.array([]), s.t[-1:]]
        s.y_events = [np.array([]), columns(p, [vec(p, rows[-1])]).T]
        if partial:
            s.t_events[1] = s.y_events[1] = np.array([])
        self.sol = self.eq.sol(s)

    def calibrate(self, *a, **k):
        """Outcome of the calibration request; whether it warned."""
        k.setdefault('method', 'STE')
        p = self.p
        p.warnings.clear()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            out = p.outcome(lambda: self.sol.calibrate_scale_factor(*a, **k))
        names = [x[0].__name__ for x in p.warnings] + [x.category.__name__ for x in w]
        self.warned = 'PrimpyWarning' in names
        return out


def finite(x):
    if isinstance(x, Sym):
        return not x.e.has(sp.nan)
    return bool(np.isfinite(num(x)))


def num(x):
    return x if isinstance(x, Sym) else x.item() if isinstance(x, np.ndarray) else x


def history(p, B, g_th, reheating, tag='', minus1=True, h=None, background=False):
    """Everything the calibrated solution has to satisfy.

    reheating: whether the reheating history is determined by the request.
    minus1: whether the reheating contribution is.
    """
    s, K = B.sol, B.K
    u, par = p.mod('primpy.units'), p.mod('primpy.parameters')
    ln = np.log
    n = len(B.N)

    def eq(name, a, b, **kw):
        kw.setdefault('scale', 100.)
        p.eq(tag + name, num(a), b, **kw)
    # the e-folds are shifted by one constant
    d = s.delta_N_calib
    eq('N0', s.N0, ln(p.S(s.a0)) if p.mode == 'sym' else ln(s.a0))
    for i in range(n):
        eq('N[%d]' % i, s.N[i], B.N[i] + d)
    eq('N_beg', s.N_beg, B.N[0] + d)
    eq('N_end', s.N_end, B.N[-1] + d)
    eq('_N_cross', s.N_cross, s._N_cross + d)
    eq('N_star', s.N_star, s.N_end - s.N_cross)
    eq('N_dagg', s.N_dagg, s.N_cross - s.N_beg)
    # the comoving Hubble radius is 1/k everywhere
    ks = par.K_STAR
    eq('number of modes', len(s.k_iMpc), n - 2)
    for i in range(n - 2):
        eq('k[%d]' % i, ln(s.k_iMpc[i]) + ln(s.cHH_Mpc[i + 1]), 0)
        eq('logk[%d]' % i, s.logk[i], B.L[i + 1] + d - s.N0 - ln(u.lp_m / u.Mpc_m))
        eq('k_iMpc[%d]' % i, ln(s.k_iMpc[i]), s.logk[i])
        eq('_k[%d]' % i, ln(s._k[i]), s.logk[i] + ln(s.a0_Mpc))
    eq('horizon at the end', ln(s.cHH_end_Mpc), s.N0 - B.L[-1] - d + ln(u.lp_m / u.Mpc_m))
    # the pivot scale crosses the horizon at N_cross
    c = s._N_cross
    p.true(tag + 'crossing in range', (num(c) >= B.N[1]) & (num(c) <= B.N[-2]))
    for i in range(1, n - 2):
        if bool(num(c) <= B.N[i + 1]):
            break
    eq('pivot crossing', s.logk[i - 1] + (s.logk[i] - s.logk[i - 1]) * (c - B.N[i]) / (B.N[i + 1] - B.N[i]),
       ln(p.S(ks)) if p.mode == 'sym' else ln(ks))
    eq('_logaH_star', s._logaH_star, B.L[i] + (B.L[i + 1] - B.L[i]) * (c - B.N[i]) / (B.N[i + 1] - B.N[i]))
    if background:
        return
    # entropy conservation and continuity
    third = sp.Rational(1, 3) if p.mode == 'sym' else 1 / 3
    pi = p.S(sp.pi) if p.mode == "sym" else np.pi
    T, g0 = par.T_CMB_Tp, par.g0

    def reh(rho):
        """e-folds from the end of reheating with this energy density until today"""
        return ln(g_th) / 12 - ln(g0) * third + ln(30 * rho / (pi**2 * T**4)) / 4
    V = B.V_end
    if minus1:
        eq('end of inflation', s.N0 - s.N_end, reh(3 * V / 2) + s.DeltaN_minus1)
    if not reheating:
        for k in 'rho_reh_GeV', 'w_reh', 'DeltaN_reh', 'N_reh', '_N_reh':
            p.true(tag + k + ' undetermined', not finite(s[k]))
        p.true(tag + 'rho_reh_mp4 undetermined', not finite(s.get('rho_reh_mp4', nan)))
        return
    eq('N_reh', s.N_reh, s._N_reh + d)
    eq('DeltaN_reh', s.DeltaN_reh, s.N_reh - s.N_end)
    eq('entropy conservation', s.N0 - s.N_reh, reh(s.rho_reh_mp4))
    eq('continuity', ln(3 * V / 2 / s.rho_reh_mp4), 3 * (1 + s.w_reh) * s.DeltaN_reh)
    eq('energy density units', s.rho_reh_mp4, (s.rho_reh_GeV / u.mp_GeV)**4, scale=0.)
    if minus1:
        eq('DeltaN_minus1', s.DeltaN_minus1, s.DeltaN_reh * (1 - 3 * s.w_reh) / 4)
    bad = (num(s.DeltaN_reh) < 0) | (num(s.N_reh) > s.N0)
    p.true(tag + 'unphysical histories are flagged',
           bad if B.warned else ~bad if p.mode == 'sym' else not bad)
