"""A generic background state with all its exact time derivatives."""
import numpy as np
import sympy as sp
from scipy.integrate._ivp.ivp import OdeResult
from symex.sym import Sym, to_expr

nan = float('nan')
VS = sp.symbols('j_a j_H j_f j_u j_v1 j_v2 j_v3 j_v4', positive=True)
_J = {}


def ddt(e, K, v):
    """Total time derivative along Klein-Gordon and Raychaudhuri (oracle)."""
    a, H, f, u, v1, v2, v3, v4 = v
    return (sp.diff(e, a) * a * H + sp.diff(e, H) * (K / a**2 - u**2 / 2)
            + sp.diff(e, f) * u + sp.diff(e, u) * (-3 * H * u - v1)
            + sp.diff(e, v1) * v2 * u + sp.diff(e, v2) * v3 * u + sp.diff(e, v3) * v4 * u)


def _jets(K, which):
    if (K, which) not in _J:
        H = VS[1]

        def D(e):
            e = ddt(e, K, VS)
            return sp.expand(e if which == 't' else e / H)
        u = VS[3] if which == 't' else VS[3] / H
        o = dict(H=H, dphi=u, dH=D(H), d2phi=D(u))
        o['d2H'] = D(o['dH'])
        o['d3H'] = D(o['d2H'])
        o['d3phi'] = D(o['d2phi'])
        o['d4phi'] = D(o['d3phi'])
        _J[K, which] = {k: (e, sp.lambdify(VS, e, 'math')) for k, e in o.items()}
    return _J[K, which]


class JetPot:
    """Potential with arbitrary value and derivatives at one field value."""

    def __init__(self, f, jets):
        self.f, self.jets = f, jets

    def _d(self, phi, n):
        out = 0 * phi
        fac = 1
        for k in range(n, len(self.jets)):
            if k > n:
                fac *= k - n
            out = out + self.jets[k] * (phi - self.f)**(k - n) / fac
        return out

    def V(self, phi):
        return self._d(phi, 0)

    def dV(self, phi):
        return self._d(phi, 1)

    def d2V(self, phi):
        return self._d(phi, 2)

    def d3V(self, phi):
        return self._d(phi, 3)

    def d4V(self, phi):
        return self._d(phi, 4)


class State:
    """One instant of the background: a, H, phi, dphi/dt and the potential jet, any curvature."""

    def __init__(self, p, K, tag='', moving=True, dphi=-0.9, phi=3.3, a=2.3):
        self.p, self.K = p, K
        n = 'x' + tag
        self.a = p.pos('a' + tag, sample=a)
        self.H = p.pos('H' + tag, sample=1.7)
        self.phi = p.real('phi' + tag, sample=phi)
        self.dphi = p.real('dphi' + tag, sample=dphi)
        if moving:
            p.assume(self.dphi != 0)
        self.N = np.log(self.a) if p.mode == 'real' else p.fn(sp.log, self.a)
        self.V0 = 3 * (self.H**2 + K / self.a**2) - self.dphi**2 / 2
        self.V1 = p.real('V1' + tag, sample=0.31)
        self.V2 = p.real('V2' + tag, sample=0.22)
        self.V3 = p.real('V3' + tag, sample=-0.14)
        self.V4 = p.real('V4' + tag, sample=0.07)
        self.pot = JetPot(self.phi, [self.V0, self.V1, self.V2, self.V3, self.V4])
        self.q = self.dphi / self.H          # dphi/dN

    def D(self, e, n=1):
        """Exact d/dt along the background solution."""
        if self.p.mode == 'real':
            return nan
        v = [x.e for x in (self.a, self.H, self.phi, self.dphi, self.V1, self.V2, self.V3, self.V4)]
        e = to_expr(e)
        for _ in range(n):
            e = ddt(e, self.K, v)
        return Sym(e)

    def DN(self, e, n=1):
        """Exact d/dN along the background solution."""
        for _ in range(n):
            e = self.D(e) / self.H
        return e

    def eqT(self, **kw):
        return self.p.mod('primpy.time.inflation').InflationEquationsT(
            K=self.K, potential=self.pot, **kw)

    def eqN(self, **kw):
        return self.p.mod('primpy.efolds.inflation').InflationEquationsN(
            K=self.K, potential=self.pot, **kw)

    def jets(self, which):
        """H and phi derivatives: exact values in the chosen time variable (also in a real run)."""
        v = (self.a, self.H, self.phi, self.dphi, self.V1, self.V2, self.V3, self.V4)
        J = _jets(self.K, which)
        if self.p.mode == 'real':
            return {k: f(*v) for k, (e, f) in J.items()}
        sub = dict(zip(VS, [to_expr(x) for x in v]))
        return {k: Sym(e.subs(sub, simultaneous=True)) for k, (e, f) in J.items()}


def vec(p, items):
    """Solution vector."""
    return np.array(items, dtype=float) if p.mode == 'real' else \
        np.array([Sym(to_expr(v)) for v in items], dtype=object)


def state_vector(p, eq, vals):
    """Put named values at the positions the equations object declares."""
    y = [None] * len(eq.idx)
    for k, i in eq.idx.items():
        y[i] = vals[k]
    return vec(p, y)


def columns(p, cols):
    """Stack solution vectors into a solution array."""
    if p.mode == 'real':
        return np.array(cols, dtype=float).T
    out = np.empty((len(cols[0]), len(cols)), dtype=object)
    for j, c in enumerate(cols):
        for i, v in enumerate(c):
            out[i, j] = v
    return out


class MultiPot:
    """Potential known by its jet at each of several states (looked up by field value)."""

    def __init__(self, p, states):
        self.p, self.states = p, states
        self.name, self.tag = 'multi', 'multi'

    def _of(self, phi):
        for s in self.states:
            if self.p.mode == 'sym':
                if isinstance(phi, Sym) and phi.e == to_expr(s.phi):
                    return s.pot
            elif float(phi) == float(s.phi):
                return s.pot
        return self.states[0].pot

    def _d(self, phi, n):
        if isinstance(phi, np.ndarray):
            out = np.empty(phi.shape, dtype=object if self.p.mode == 'sym' else float)
            for i in np.ndindex(phi.shape):
                out[i] = self._of(phi[i])._d(phi[i], n)
            return out
        return self._of(phi)._d(phi, n)

    V = JetPot.V
    dV = JetPot.dV
    d2V = JetPot.d2V
    d3V = JetPot.d3V
    d4V = JetPot.d4V


def mode_background(p, K, which, n, tag='', spread=None, **extra):
    """Stand-in for a solved background with n arbitrary, unrelated states of the same curvature."""
    ss = [State(p, K, '%s%d' % (tag, i), phi=3.3 + .37 * i, a=spread[i] if spread else 2.3) for i in range(n)]
    b = OdeResult(K=K, independent_variable='t' if which == 't' else '_N', states=ss,
                        potential=MultiPot(p, ss), **extra)
    b._N = vec(p, [s.N for s in ss])
    b.N = vec(p, [p.real('Nrel%s%d' % (tag, i), sample=1.5 + i) for i in range(n)])
    b.phi = vec(p, [s.phi for s in ss])
    b.H = vec(p, [s.H for s in ss])
    b.dphidt = vec(p, [s.dphi for s in ss])
    b.dphidN = vec(p, [s.q for s in ss])
    b.Omega_K = vec(p, [-K / (s.a * s.H)**2 for s in ss])
    b.t = vec(p, [p.pos('t%s%d' % (tag, i), sample=3. + 2 * i) for i in range(n)])
    if which == 't':
        del b.dphidN
        b.x = b.t
    else:
        del b.dphidt
        b.x = b._N
    return b


def placeholder(*a, **k):
    """The empty integration with which a mode starts out."""
    return OdeResult(t=np.zeros(1), y=np.zeros((2, 1)), sol=None, t_events=None, y_events=None, nfev=2, njev=0, nlu=0,
                     status=0, message='', success=True)


def modes(p, which, **attr):
    """The scalar and tensor mode classes, with the placeholder solver calls they start with."""
    from .common import library
    m = p.mod('primpy.time.perturbations' if which == 't' else 'primpy.efolds.perturbations')
    base = p.mod('primpy.perturbations')

    def make(kind, **kw):
        with library(p, 'solve_ivp', placeholder, base):
            return getattr(m, {'s': 'ScalarMode', 't': 'TensorMode', 'p': 'Perturbation'}[kind]
                           + ('T' if which == 't' else 'N'))(**kw)
    return make


def parts(p, x):
    """Real and imaginary part of a value that may be complex."""
    if p.mode == 'real':
        x = complex(x)
        return x.real, x.imag
    from symex.sym import Cx
    x = Cx.of(x)
    return x.real, x.imag
