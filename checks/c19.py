"""C19: setting the spectral index."""
from scipy.optimize import OptimizeResult
import numpy as np
from symex.engine import Job
from .calib import Background, history, num
from .common import TRUSTED, library

PRELOAD = ('primpy.inflation', 'primpy.parameters')
EXPLANATION = ('set_ns is executed on a background with symbolic e-folds and Hubble rates, whose spectral index is an '
               'arbitrary function of N_star (arbitrary values at the ends of the search range and at the point the root finder '
               'returns). z3 decides that the solution is left calibrated at that point with the requested index and '
               'reheating density, with a consistent reheating history, and that the request is refused '
               'exactly if the index at both ends lies on the same side of the target or the universe is curved.')
BOUNDS = ('grids of 6 points, search ranges within one cell of the grid, every value of the end points, of the target, of the '
          'index at the end points and at the root, of the e-folds, Hubble rates, V_end and reheating density')
ASSUMPTIONS = list(TRUSTED) + [
    'scipy root_scalar with a bracket returns a root inside of it if the function changes sign there, and refuses otherwise',
    'interp1d is piecewise linear between the nodes; the spectrum spline has arbitrary derivatives at the pivot']


def target(p, rho, defaults):
    B = Background(p, 0, 4, dn=(3., 20., 31., 97., 9.))
    lo = p.S(20) if defaults else p.real('N_star_min', sample=37., lo=0)
    hi = p.S(90) if defaults else p.real('N_star_max', sample=41., lo=0)
    f = p.pos('fraction', sample=.3, hi=1)
    if not defaults:
        p.assume(hi > lo)
    root = lo + f * (hi - lo)
    for x in (lo, hi):
        p.assume(B.N[-1] - x >= B.N[3])
        p.assume(B.N[-1] - x <= B.N[4])
    want = p.real('n_s', sample=.965)
    at = [(lo, p.real('ns_lo', sample=.951)), (hi, p.real('ns_hi', sample=.972)), (root, want)]
    other = p.real('ns_other', sample=.5)

    def index():
        x = num(B.sol.N_star)
        for q, v in at:
            if bool(x == q):
                return v
        return other

    rest = [p.real('d%d' % i, sample=-20. + 7 * i) for i in range(4)]

    def derivatives(*a):
        return [rest[0], index() - 1, rest[2], rest[3]]

    def root_scalar(fun, args=(), method=None, bracket=None, *extra, **k):
        a, b = bracket
        fa, fb = fun(a), fun(b)
        if bool(fa * fb > 0):
            raise ValueError('f(a) and f(b) must have different signs')
        fun(root)
        return OptimizeResult(root=root, converged=True, flag='converged', iterations=9, function_calls=11)
    m = p.mod('primpy.inflation')
    kw = {}
    if rho:
        kw['rho_reh_GeV'] = p.pos('rho_reh', sample=3e12)
    if not defaults:
        kw.update(N_star_min=lo, N_star_max=hi)
    ctx = library(p, 'spline_derivatives', derivatives) if p.mode == 'sym' else \
        library(p, 'InterpolatedUnivariateSpline', spline_class(derivatives), m)
    with ctx, library(p, 'root_scalar', root_scalar, m):
        out, exc = p.outcome(lambda: B.sol.set_ns(want, **kw))
    va, vb = at[0][1] - want, at[1][1] - want
    one_sided = (va > 0) & (vb > 0) | (va < 0) & (vb < 0)
    if out != 'ok':
        p.eq('kind of refusal', exc, 'PrimpyError')
        p.true('refused only if out of reach', one_sided)
        return
    p.true('refused if out of reach', ~one_sided if p.mode == 'sym' else not one_sided)
    s = B.sol
    p.eq('spectral index', num(s.n_s), want)
    p.eq('N_star', num(s.N_star), root)
    p.true('in the range', (num(s.N_star) >= lo) & (num(s.N_star) <= hi))
    if rho:
        p.eq('reheating density', s.rho_reh_GeV, kw['rho_reh_GeV'])
    B.warned = None
    hist(p, B, bool(rho))


def hist(p, B, rho):
    """The history belongs to the final N_star."""
    true = p.true

    def skip(name, c, **k):
        if not name.endswith('flagged'):
            true(name, c, **k)
    p.true = skip
    try:
        history(p, B, p.S(100), rho)
    finally:
        p.true = true


def spline_class(der):
    class Spline:
        def __init__(self, x, y, *a, **k):
            self.x, self.y = x, y

        def __call__(self, v):
            return np.interp(v, self.x, self.y)

        def derivatives(self, v):
            return der()
    return Spline


def curved(p, K):
    from .background import State
    B = Background(p, K, 4)
    want = p.real('n_s', sample=.965)
    before = {k: B.sol[k] for k in B.sol if k.startswith('N') or k in ('a0', 'logk')}
    out, exc = p.outcome(lambda: B.sol.set_ns(want))
    p.eq('refused', (out), 'raise')
    p.eq('kind of refusal', exc, 'PrimpyError')
    p.eq('nothing calibrated', sorted(before), sorted(k for k in B.sol if k.startswith('N') or k in ('a0', 'logk')))


def jobs(tier):
    out = [Job('curved K=%d' % K, curved, dict(K=K)) for K in (1, -1)]
    for rho in (False, True):
        for d in (False, True):
            out.append(Job('flat%s%s' % (' with reheating' * rho, ', default range' * d), target,
                           dict(rho=rho, defaults=d), max_decisions=400))
    return out
