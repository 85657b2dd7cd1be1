"""C18: slow-roll approximations of the power spectra."""
import numpy as np
import sympy as sp
from scipy.integrate._ivp.ivp import OdeResult
from symex.engine import Job
from symex.sym import Sym, to_expr
from .common import TRUSTED, library
from .background import VS, MultiPot, State, columns, ddt, state_vector, vec
from .calib import FlatPot, flow_functions, num
from .jet import Jet, ORDER

PRELOAD = ('primpy.inflation', 'primpy.time.inflation', 'primpy.efolds.inflation', 'primpy.parameters')
EXPLANATION = ('The four approximations are executed on truncated power series in the slow-roll order with symbolic '
               'coefficients: z3 decides, order by order and for all values of the flow parameters and of ln k, that any two '
               'methods agree to the order they share, at the pivot scale and away from it (where the exact '
               'evolution of the flow parameters is the oracle). On arbitrary background states z3 decides that the '
               'flow parameters entering the spectra are those of the background, and for sequences of '
               'calibrations, derivations and requests that every reported number is the one of a fresh '
               'calculation.')
BOUNDS = ('up to third order in slow roll, all values of the flow parameters e1 > 0, e2, e3 (e4 = 0, which the code leaves '
          'open), all positive Hubble rates, all wavenumbers; spectra are positive at all points, as they are for small enough flow '
          'parameters; histories of up to four requests on a grid of four points')
ASSUMPTIONS = list(TRUSTED) + [
    'splines and interpolants are exact at the nodes; derivatives of the spline are arbitrary linear functions of '
    'the values at the nodes']

E1, E2, E3 = sp.symbols('E1 E2 E3')


def DN(x):
    """d/dN of a function of the flow parameters (e4 = 0)."""
    return sp.expand(sp.diff(x, E1) * E1 * E2 + sp.diff(x, E2) * E2 * E3)


def series_k(x, lead, orders=4):
    """Taylor coefficients in ln k of x, each cut at slow-roll order lead + orders - 1."""
    eps = sp.Symbol('eps')

    def cut(y, n):
        y = sp.expand(y.subs({E1: eps * E1, E2: eps * E2, E3: eps * E3}, simultaneous=True))
        return sum(y.coeff(eps, i) for i in range(n))
    inv = sum(E1**i for i in range(6))
    out = []
    for j in range(orders + 1):
        out.append(cut(x, lead + orders))
        x = cut(DN(x) * inv, lead + orders + 1)
    return [y / sp.factorial(j) for j, y in enumerate(out)]


_T = {}


def tables():
    if not _T:
        inv = sum(E1**i for i in range(6))
        for n, e in (('e1', E1), ('e2', E2), ('e3', E3)):
            _T[n] = series_k(e, 1)
        for n, b in (('s', -2 * E1 - E2), ('t', -2 * E1)):
            # ln P0 changes by the integral of this
            ser = series_k(sp.expand(b * inv), 1)
            _T['lnP0' + n] = [sp.S.Zero] + [y / (j + 1) for j, y in enumerate(ser)]
        d1 = E2 / 2 - E1
        d2 = sp.expand(DN(d1) + d1**2 - d1 * E1)
        d3 = sp.expand(DN(d2) + d1 * d2 - 2 * E1 * d2)
        _T.update(d1=d1, d2=d2, d3=d3)
    return _T


def poly(p, expr, vals):
    """Evaluate a polynomial with rational coefficients on series or numbers."""
    out = 0
    for mon, c in sp.Poly(expr, E1, E2, E3).terms():
        t = p.S(c) if p.mode == 'sym' else float(c)
        for x, n in zip(vals, mon):
            if n:
                t = x**n * t
        out = out + t
    return out


class Flow:
    """The flow parameters (and what the code derives from them) as series in the slow-roll order."""

    def __init__(self, p, e):
        T = tables()
        self.e1, self.e2, self.e3 = e
        for d in ('d1', 'd2', 'd3'):
            setattr(self, d, poly(p, T[d], e))
        self.g2 = self.e1 * self.e2
        self.g3 = self.e1 * self.e2**2 + self.e1 * self.e2 * self.e3 - self.e1**2 * self.e2


class Nodes:
    """A function known at nodes."""

    def __init__(self, x, y, *a, **k):
        self.x, self.y = list(x), list(y)

    def __call__(self, v, *a, **k):
        if isinstance(v, np.ndarray) and v.ndim:
            out = np.empty(v.shape, dtype=object)
            for i in range(v.size):
                out[i] = self(v[i])
            return out
        best = None
        for x, y in zip(self.x, self.y):
            if isinstance(x, Sym) or isinstance(v, Sym):
                d = to_expr(num(x)) - to_expr(num(v))
                if d == 0 or sp.expand(d) == 0 or sp.simplify(d) == 0:
                    return y
            elif best is None or abs(x - v) < best[0]:
                best = (abs(x - v), y)
        if best is None or best[0] > 1e-6:
            raise ValueError('not a node: %s' % v)
        return best[1]

    def derivatives(self, v):
        return [0, 0, 0, 0]


def at_nodes(p):
    """Interpolation and splines evaluated at the nodes only."""
    import contextlib
    st = contextlib.ExitStack()
    m = p.mod('primpy.inflation')
    if p.mode == 'sym':
        for k in 'interp1d', 'spline':
            st.enter_context(library(p, k, lambda o, v: Nodes(o.x, o.y)(v)))
        st.enter_context(library(p, 'spline_derivatives', lambda o, v: [0, 0, 0, 0]))
    else:
        st.enter_context(library(p, 'interp1d', Nodes, m))
        st.enter_context(library(p, 'InterpolatedUnivariateSpline', Nodes, m))
    return st


def arr(items):
    out = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        out[i] = x
    return out


def equations(p, flows):
    Base = p.mod('primpy.inflation').InflationEquations

    class Eq(Base):
        def __init__(self):
            super().__init__(0, FlatPot(p.pos('V_end', sample=3e-11)))
            self._set_independent_variable('t')
            self.add_variable('_N', 'phi', 'dphidt', 'row_H')

        def H(self, x, y):
            return y[3]

        def H2(self, x, y):
            return y[3]**2

        def w(self, x, y):
            return 0 * y[3] - 1

        def inflating(self, x, y):
            return 0 * y[3] + 1

        locals().update(flow_functions(Base, {
            'get_epsilon_1H': lambda **k: arr([f.e1 for f in flows]),
            'get_epsilon_2H': lambda kind=None, **k: arr([f.g2 if kind else f.e2 for f in flows]),
            'get_epsilon_3H': lambda kind=None, **k: arr([f.g3 if kind else f.e3 for f in flows]),
            'get_delta_1': lambda **k: arr([f.d1 for f in flows]),
            'get_delta_2': lambda **k: arr([f.d2 for f in flows]),
            'get_delta_3': lambda **k: arr([f.d3 for f in flows])}))
    return Eq()


def solution(p, eq, rows, logk, cross):
    """A finished solution whose inner points are the nodes of the spectra."""
    s = OdeResult()
    n = len(rows)
    s.t = vec(p, list(range(1, n + 1)))
    s.y = columns(p, [vec(p, r) for r in rows])
    s.event_keys = ['Inflation_dir1_term0', 'Inflation_dir-1_term1']
    s.t_events = [np.array([]), s.t[-1:]]
    s.y_events = [np.array([]), s.y[:, -1:].T]
    sol = eq.sol(s)
    sol.logk = vec(p, logk)
    sol._N_cross = sol._N[cross]
    return sol


ORDERS = {('CGS', 0): 0, ('CGS', 1): 1, ('CGS', 2): 2, ('CGS', 3): 3, ('LLMS', 3): 2, ('STE', 3): 2, ('ARBDS', 1): 1,
          ('ARBDS', 2): 2, ('ARBDS', 3): 3}
LOCAL = ('CGS', 'STE')


def agree(p, methods):
    """Every method against every other one, at the pivot and at another wavenumber."""
    T = tables()
    K0 = p.mod('primpy.parameters').K_STAR
    lnk = p.S(sp.log(sp.Rational(1, 20))) if p.mode == 'sym' else np.log(K0)
    p.eq('pivot scale', K0, sp.Rational(1, 20) if p.mode == 'sym' else .05)
    s = [p.pos('e1', sample=.31), p.real('e2', sample=.47), p.real('e3', sample=-.23)]
    x = p.real('x', sample=.61)
    pad = [0] * (ORDER - 1)
    pivot = [Jet(1, [v] + pad) for v in s]
    there = []
    for n in ('e1', 'e2', 'e3'):
        t = 0
        for j, y in enumerate(T[n]):
            t = t + poly(p, y, pivot) * x**j
        there.append(t)
    F = [Flow(p, pivot), Flow(p, there)]
    H = [p.pos('H0', sample=1.3), p.pos('H1', sample=1.1)]
    flows = [F[0], F[0], F[1], F[0]]
    hs = [H[0], H[0], H[1], H[0]]
    eq = equations(p, flows)
    rows = [[i, 5. - i, -.1, h] for i, h in enumerate([H[0]] + hs + [H[0]])]
    sol = solution(p, eq, rows, [lnk - 1, lnk, lnk + x, lnk + 7], 2)
    pi = p.S(sp.pi) if p.mode == 'sym' else np.pi
    got = {}
    with at_nodes(p):
        for m, o in ORDERS:
            if m not in methods:
                continue
            sol.derive_approx_power(m, o)
            kk = [np.exp(sol.logk[1]), np.exp(sol.logk[2])]
            for kind in 'st':
                P = getattr(sol, 'P_%s_approx' % kind)
                for where in (0, 1):
                    q = P(kk[where], m, o)
                    # in units of the lowest order at the pivot scale
                    P0 = 2 * H[0]**2 / pi**2
                    if kind == 's':
                        P0 = P0 / (16 * F[0].e1)
                    ratio = q / P0
                    if where:
                        # the code knows the Hubble rate only at the node: replace it by the exact one
                        if m in LOCAL:
                            ratio = ratio * H[0]**2 / H[1]**2
                            lead = poly_x(p, 'lnP0' + kind, pivot, x).exp()
                            if kind == 's':
                                lead = lead * F[1].e1 / F[0].e1
                            ratio = ratio * lead
                    got[m, o, kind, where] = ratio
    ms = [mo for mo in ORDERS if mo[0] in methods]
    for kind in 'st':
        for where in (0, 1):
            for i, a in enumerate(ms):
                for b in ms[i + 1:]:
                    n = min(ORDERS[a], ORDERS[b])
                    A, B = got[a + (kind, where)], got[b + (kind, where)]
                    for j in range(n + 1):
                        if where and j == 0:
                            continue
                        p.eq('%s %s%d = %s%d to order %d%s' % (
                            'scalars' if kind == 's' else 'tensors', a[0], a[1], b[0], b[1], j,
                            ' away from the pivot' if where else ''),
                            num(coef(A, j)) + 1, num(coef(B, j)) + 1, scale=1.)


def coef(x, k):
    return x.coef(k) if isinstance(x, Jet) else x if k == 0 else 0


def poly_x(p, name, vals, x):
    t = 0
    for j, y in enumerate(tables()[name]):
        if y != 0:
            t = t + poly(p, y, vals) * x**j
    return t


def flows_of(p, s):
    """Exact values of everything the spectra are made of, along the background flow."""
    if s.K not in _X:
        H, u = VS[1], VS[3]

        def D(e):
            return sp.together(ddt(e, s.K, VS) / H)
        e1 = -(s.K / VS[0]**2 - u**2 / 2) / H**2
        e2 = D(e1) / e1
        d = [u]
        for _ in range(3):
            d.append(sp.expand(ddt(d[-1], s.K, VS)))
        o = dict(e1=e1, e2=e2, e3=sp.cancel(D(e2) / e2), g2=D(e1), g3=ddt(ddt(e1, s.K, VS), s.K, VS) / H**2)
        for n in (1, 2, 3):
            o['d%d' % n] = d[n] / (H**n * u)
        _X[s.K] = {k: (e, sp.lambdify(VS, e, 'math')) for k, e in o.items()}
    v = (s.a, s.H, s.phi, s.dphi, s.V1, s.V2, s.V3, s.V4)
    if p.mode == 'real':
        return {k: f(*v) for k, (e, f) in _X[s.K].items()}
    sub = dict(zip(VS, [to_expr(x) for x in v]))
    return {k: Sym(e.subs(sub, simultaneous=True)) for k, (e, f) in _X[s.K].items()}


_X = {}


def inputs(p, K, which, method):
    """The flow parameters handed to the formulas are those of the background."""
    s = State(p, K)
    T = which == 't'
    m = p.mod('primpy.time.inflation' if T else 'primpy.efolds.inflation')
    Base = m.InflationEquationsT if T else m.InflationEquationsN
    want = flows_of(p, s)
    Hd = want['e1']
    p.assume(Hd != 0)
    p.assume(want['e2'] != 0)
    seen = {}

    def rec(name, tame):
        real = getattr(Base, 'get_' + name)

        def f(self, *a, **k):
            v = real(*a, **k)
            key = {'epsilon_1H': 'e1', 'epsilon_2H': 'g2' if k.get('kind') else 'e2',
                   'epsilon_3H': 'g3' if k.get('kind') else 'e3'}.get(name, name.replace('elta_', ''))
            seen.setdefault(key, []).append(v)
            return 0 * s.H * v * 0 + tame if p.mode == 'real' else vec(p, [tame] * len(v))
        return f

    class Eq(Base):
        def inflating(self, x, y):
            return 1

        def w(self, x, y):
            return 0 * self._N(x, y) - 1

        def H(self, x, y):
            return 0 * self._N(x, y) + s.H

        def H2(self, x, y):
            return 0 * self._N(x, y) + s.H**2
    for n in ('epsilon_1H', 'epsilon_2H', 'epsilon_3H', 'delta_1', 'delta_2', 'delta_3'):
        setattr(Eq, 'get_' + n, rec(n, p.S(1) / 128 if p.mode == 'sym' else 1 / 128))
    eq = Eq(K, MultiPot(p, [s]))
    vals = dict(phi=s.phi, dphidt=s.dphi, dphidN=s.q, _N=s.N)
    n = 4
    r = OdeResult()
    r.t = vec(p, [1 + i if T else s.N for i in range(n)])
    r.y = columns(p, [state_vector(p, eq, vals)] * n)
    r.event_keys = []
    r.t_events, r.y_events = [], []
    sol = eq.sol(r)
    sol.inflation_mask = np.ones(n, dtype=bool)
    sol.logk = vec(p, [-3 - i for i in range(n)])
    sol._N_cross = sol._N[0]
    sol.N_star = 50
    with at_nodes(p):
        sol.derive_approx_power(method, 3)
    for k, vs in seen.items():
        for v in vs:
            p.eq(k, v[1], want[k])
    lead = 2 * s.H**2 / (p.S(sp.pi) if p.mode == 'sym' else np.pi)**2
    if method == 'CGS':
        with at_nodes(p):
            sol.derive_approx_power('CGS', 0)
        p.eq('leading order of the tensors', sol.P_tensor_approx[1], lead)
        if 'e1' in seen:
            p.eq('leading order of the scalars', sol.P_scalar_approx[1], lead * 128 / 16)


class Linear:
    """scipy's interp1d inside of the nodes."""

    def __init__(self, x, y, *a, **k):
        self.x, self.y = list(x), list(y)

    def __call__(self, v):
        v = num(v)
        if bool(v < self.x[0]) or bool(v > self.x[-1]):
            raise ValueError('outside of the interpolation range')
        for i in range(len(self.x) - 1):
            if bool(v <= self.x[i + 1]):
                break
        t = (v - self.x[i]) / (self.x[i + 1] - self.x[i])
        return self.y[i] + (self.y[i + 1] - self.y[i]) * t


class Spline(Nodes):
    """Exact at the nodes; the derivatives at the pivot scale stand for all of the nodes' values."""

    where = None

    def derivatives(self, v):
        type(self).where = v
        return [self.y[i] for i in range(4)]


def libraries(p):
    import contextlib
    st = contextlib.ExitStack()
    m = p.mod('primpy.inflation')
    if p.mode == 'sym':
        st.enter_context(library(p, 'interp1d', lambda o, v: Linear(o.x, o.y)(v)))
        st.enter_context(library(p, 'spline', lambda o, v: Spline(o.x, o.y)(v)))
        st.enter_context(library(p, 'spline_derivatives', lambda o, v: Spline(o.x, o.y).derivatives(v)))
    else:
        st.enter_context(library(p, 'interp1d', Linear, m))
        st.enter_context(library(p, 'InterpolatedUnivariateSpline', Spline, m))
    return st


REPORTED = ('A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r')
QUICK = (('CGS', 3), ('CGS', 1), ('LLMS', 3), ('STE', 3), ('ARBDS', 2))


class History:
    def __init__(self, p):
        self.p = p
        pad = [0]
        fl = []
        for i in range(4):
            fl.append(Flow(p, [Jet(1, [p.pos('e1%d' % i, sample=.31 + .1 * i)] + pad),
                               Jet(1, [p.real('e2%d' % i, sample=.47 - .2 * i)] + pad),
                               Jet(1, [p.real('e3%d' % i, sample=-.23 + .3 * i)] + pad)]))

        def tab(name, gong=None):
            def f(self, *a, kind=None, **k):
                return arr([getattr(x, gong if kind else name) for x in fl])
            return f
        self.table = dict(get_epsilon_1H=tab('e1'), get_epsilon_2H=tab('e2', 'g2'), get_epsilon_3H=tab('e3', 'g3'),
                          get_delta_1=tab('d1'), get_delta_2=tab('d2'), get_delta_3=tab('d3'))
        # crossing half way, or a quarter of the way from the other side, between two nodes
        self.Nstar = [p.S(x) for x in (36.5, 33.75)]
        self._f = {}

    def B(self):
        from .calib import Background
        old = dict(self.p.hooks)
        b = Background(self.p, 0, 4, table=self.table, grid=True)
        self.p.hooks.clear()
        self.p.hooks.update(old)
        return b

    def fresh(self, n, mo):
        """Spectra and reported numbers of a calculation without history."""
        if (n, mo) not in self._f:
            s = self.B().sol
            with libraries(self.p):
                s.calibrate_scale_factor('N_star', N_star=self.Nstar[n], method=mo[0], order=mo[1])
                self._f[n, mo] = self.state(s)
        return self._f[n, mo]

    def state(self, s):
        d = {k: s[k] for k in REPORTED}
        for k in 's', 't':
            P = s['P_scalar_approx' if k == 's' else 'P_tensor_approx']
            for i in range(4):
                d['P_%s[%d]' % (k, i)] = P[i]
                with libraries(self.p):
                    d['logP_%s[%d]' % (k, i)] = s['logk2logP_' + k](s.logk[i])
        return d

    def same(self, name, a, b):
        p = self.p
        a, b = Jet.of(a), Jet.of(b)
        p.eq(name + ' (leading power)', [a.v if a.c else 0, a.l], [b.v if b.c else 0, b.l])
        for i in range(2):
            p.eq('%s (term %d)' % (name, i), num(a.c[i]) if i < len(a.c) else 0, num(b.c[i]) if i < len(b.c) else 0)


def fresh(p, mos):
    """Numbers reported without history are those of the spectrum that was asked for."""
    h = History(p)
    par = p.mod('primpy.parameters')
    mo = p.choice('spectrum', mos)
    f = h.fresh(0, mo)
    p.eq('derivatives are taken at the pivot scale', Spline.where,
         np.log(par.K_STAR) if p.mode == 'real' else np.log(p.S(to_expr(par.K_STAR))))
    s = h.B().sol
    with libraries(p):
        s.calibrate_scale_factor('N_star', N_star=h.Nstar[0], method=mo[0], order=mo[1])
        for i in range(4):
            for k in 'st':
                P = f['P_%s[%d]' % (k, i)]
                h.same('%s at node %d' % (k, i), getattr(s, 'P_%s_approx' % k)(s.k_iMpc[i], *mo), P)
                h.same('%s interpolant at node %d' % (k, i), f['logP_%s[%d]' % (k, i)], Jet.of(P).log())
    ls, lt = [[f['logP_%s[%d]' % (k, i)] for i in range(4)] for k in 'st']
    # the spline's derivatives stand for the nodes' values
    h.same('A_s', f['A_s'], ls[0].exp())
    h.same('n_s', f['n_s'], ls[1] + 1)
    h.same('n_run', f['n_run'], ls[2])
    h.same('n_runrun', f['n_runrun'], ls[3])
    h.same('A_t', f['A_t'], Jet.of(lt[0]).exp())
    h.same('n_t', f['n_t'], lt[1])
    h.same('r', f['r'] * ls[0].exp(), Jet.of(lt[0]).exp())


def history(p, first, ops, mos):
    """Whatever was asked before: reported numbers and spectra are those of a fresh calculation."""
    h = History(p)
    s = h.B().sol
    n, rep = 0, first
    with libraries(p):
        s.calibrate_scale_factor('N_star', N_star=h.Nstar[0], method=first[0], order=first[1])
        for j, op in enumerate(ops):
            mo = p.choice('spectrum %d' % j, mos)
            if op == 'C':
                n = 1 - n
                s.calibrate_scale_factor('N_star', N_star=h.Nstar[n], method=mo[0], order=mo[1])
                rep = mo
            elif op == 'D':
                s.derive_approx_power(*mo)
                rep = mo
            else:
                for kk in ('st' if j % 2 else 'ts'):
                    got = getattr(s, 'P_%s_approx' % kk)(s.k_iMpc[1], *mo)
                    h.same('query %d of %s' % (j, kk), got, h.fresh(n, mo)['P_%s[1]' % kk])
    now = h.state(s)
    for k, v in h.fresh(n, rep).items():
        h.same('reported ' + k, now[k], v)


def refused(p, first):
    """Methods and orders that do not exist are refused."""
    h = History(p)
    s = h.B().sol
    mo = p.choice('spectrum', [('foo', 3), ('cgs', 3), ('CGS', 4), ('ARBDS', 0), ('ARBDS', 4), ('CGS', -1)])
    how = p.choice('how', ['query s', 'query t', 'derive', 'calibrate'])
    with libraries(p):
        if how == 'calibrate':
            out, e = p.outcome(lambda: s.calibrate_scale_factor('N_star', N_star=h.Nstar[0], method=mo[0], order=mo[1]))
        else:
            s.calibrate_scale_factor('N_star', N_star=h.Nstar[0], method=first[0], order=first[1])
            if how == 'derive':
                out, e = p.outcome(lambda: s.derive_approx_power(*mo))
            else:
                out, e = p.outcome(lambda: getattr(s, 'P_%s_approx' % how[-1])(s.k_iMpc[1], *mo))
    p.eq('refused', out, 'raise')


def jobs(tier):
    out = [Job('agreement', agree, dict(methods=('CGS', 'LLMS', 'STE', 'ARBDS')))]
    for w in 'tN':
        for K in (0, 1, -1):
            for m in ('CGS', 'LLMS', 'STE', 'ARBDS'):
                out.append(Job('%s K=%d background of %s' % (w, K, m), inputs, dict(K=K, which=w, method=m)))
    allmo = tuple(ORDERS)
    out.append(Job('reported', fresh, dict(mos=allmo), max_decisions=200))
    for mo in (('CGS', 3), ('LLMS', 3), ('STE', 3), ('ARBDS', 2)):
        out.append(Job('unknown after %s%d' % mo, refused, dict(first=mo), max_decisions=200))
    plan = [(QUICK, ('QQ', 'CQ', 'DQ', 'QC', 'QD'))]
    if tier != 'quick':
        plan = [(allmo, ('QQ', 'CQ', 'DQ', 'QC', 'QD')), (QUICK, ('QCQ', 'QDQ', 'DCQ', 'CDQ', 'CCQ'))]
    for mos, seqs in plan:
        for first in mos:
            for q in seqs:
                out.append(Job('%s%d then %s' % (first + (q,)), history, dict(first=first, ops=q, mos=mos), max_paths=4000,
                               max_decisions=200))
    return out
