"""C09: initial conditions."""
import inspect
import numpy as np
import sympy as sp
from symex.engine import Job
from symex.sym import Sym, to_expr
from .common import TRUSTED
from .background import vec

PRELOAD = ('primpy.initialconditions',)
EXPLANATION = ('Each initial-condition class is executed with a symbolic potential value and slope, initial e-folds '
               'or curvature density, for each curvature, time variable and tracked quantity; z3 decides that '
               'the produced state satisfies the defining equations and that exactly the impossible '
               'requests are refused. The shooting variants run with the integrator and the root finder replaced by '
               'their contracts.')
BOUNDS = ('all positive potential values, all slopes, all initial e-folds, curvature densities of the right sign for '
          'the geometry and open ones of one or more; curvature -1, 0, 1; all combinations of tracked times; for the '
          'shooting variants one arbitrary trial field value with each kind of integration outcome')
ASSUMPTIONS = list(TRUSTED) + [
    'scipy.optimize.root_scalar returns a root of the function it is given (shooting variants)',
    'primpy.solver.solve is replaced by its outcomes: finished inflation with any number of e-folds, ran until the '
    'e-fold limit, collapsed, never inflated, or failed in step size or otherwise']


def same(a, b):
    return str(to_expr(a)) == str(to_expr(b)) if isinstance(b, Sym) else float(a) == b


class Pot:
    """Potential known at one field value, and one other value elsewhere."""

    def __init__(self, f, V, dV, other=None):
        self.f, self.v, self.d, self.other = f, V, dV, other

    def V(self, phi):
        return self.v if self.other is None or same(phi, self.f) else self.other

    def dV(self, phi):
        return self.d


def setup(p, K, which, eta, time, other=None):
    f = p.real('phi_i', sample=5.2)
    V = p.pos('V_i', sample=0.7)
    dV = p.real('dV_i', sample=0.4)
    pot = Pot(f, V, dV, other)
    kw = dict(track_eta=eta)
    if which == 'N':
        kw['track_time'] = time
        eq = p.mod('primpy.efolds.inflation').InflationEquationsN(K=K, potential=pot, **kw)
    else:
        eq = p.mod('primpy.time.inflation').InflationEquationsT(K=K, potential=pot, **kw)
    return f, V, dV, pot, eq


def exp2N(p, N):
    return np.exp(2 * N)


def check_state(p, tag, eq, ic, cls, K, V, dV, f, eta, time, t_i, eta_i, x_end, call=True):
    """The state written by the initial conditions object satisfies its definition."""
    N = ic.N_i
    H2 = (V / 3 if cls == 'SlowRollIC' else V / 2) - K * np.exp(-2 * N)
    p.eq(tag + 'H_i', ic.H_i**2, H2)
    p.true(tag + 'H_i positive', ic.H_i > 0)
    p.eq(tag + 'aH_i', ic.aH_i, ic.H_i * np.exp(N))
    p.eq(tag + 'Omega_Ki', ic.Omega_Ki * H2, -K * np.exp(-2 * N))
    y0 = vec(p, [0] * len(eq.idx))
    if call:
        ic(y0=y0)
    N_state = y0[eq.idx['_N']] if '_N' in eq.idx else ic.x_ini
    p.eq(tag + 'N', N_state, N)
    p.eq(tag + 'phi', y0[eq.idx['phi']], f)
    u = y0[eq.idx['dphidt']] if 'dphidt' in eq.idx else y0[eq.idx['dphidN']] * ic.H_i
    if cls == 'SlowRollIC':
        p.eq(tag + 'attractor', 3 * ic.H_i * u, -dV)
    else:
        p.eq(tag + 'start of inflation', u**2, V)
        p.true(tag + 'rolls to smaller fields', u < 0)
        # the code's own Friedmann equation and inflation criterion see the same state
        p.eq(tag + 'Friedmann', eq.H2(ic.x_ini, y0), H2)
        p.eq(tag + 'inflating', eq.inflating(ic.x_ini, y0), 0 * V, scale=1.0)
    p.eq(tag + 'x_ini', ic.x_ini, N if 'dphidN' in eq.idx else t_i)
    p.eq(tag + 'x_end', ic.x_end, x_end)
    if time and 't' in eq.idx:
        p.eq(tag + 't', y0[eq.idx['t']], t_i)
    if eta:
        p.eq(tag + 'eta', y0[eq.idx['eta']], eta_i)
    return y0


def static(p, cls, K, which, eta, time, inp):
    f, V, dV, pot, eq = setup(p, K, which, eta, time)
    icm = p.mod('primpy.initialconditions')
    C = getattr(icm, cls)
    t_i = p.real('t_i', sample=1.5)
    eta_i = p.real('eta_i', sample=-0.4)
    x_end = p.real('x_end', sample=1e4)
    kw = dict(equations=eq, phi_i=f, t_i=t_i, eta_i=eta_i, x_end=x_end)
    if inp == 'N_i':
        N = p.real('N_i', sample=2.1)
        half = V / 3 if cls == 'SlowRollIC' else V / 2
        aH2 = half * np.exp(2 * N) - K
        p.assume(aH2 != 0)
        out, ic = p.outcome(lambda: C(N_i=N, **kw))
        if out != 'ok':
            p.eq('refusal', ic, 'InflationStartError')
            p.true('only impossible starts are refused', aH2 < 0)
            return
        p.true('impossible starts are refused', aH2 > 0)
        p.eq('N_i', ic.N_i, N)
    else:
        if inp == 'too open':
            O = 1 + p.var('excess', lo=0, loopen=False, sample=0.7)
            p.raises('refused', icm.InflationStartError, lambda: C(Omega_Ki=O, **kw))
            return
        O = -p.pos('Omega', sample=0.4) if K == 1 else p.pos('Omega', hi=1, sample=0.4)
        ic = C(Omega_Ki=O, **kw)
        p.eq('Omega_Ki', ic.Omega_Ki, O)
        # the same state as from e-folds
        other = C(N_i=ic.N_i, **kw)
        p.eq('equivalent H', other.H_i, ic.H_i)
        p.eq('equivalent Omega', other.Omega_Ki, O)
    check_state(p, '', eq, ic, cls, K, V, dV, f, eta, time, t_i, eta_i, x_end)


def refusals(p, cls, which):
    K = p.choice('K', [1, -1])
    f, V, dV, pot, eq = setup(p, K, which, True, True)
    icm = p.mod('primpy.initialconditions')
    C = getattr(icm, cls)
    N = p.var('N_i', lo=0, sample=4.)
    p.assume(V > 4)
    kw = dict(equations=eq, phi_i=f, x_end=10.)
    p.raises('no curvature input', (TypeError, AssertionError), lambda: C(**kw))
    p.raises('two curvature inputs', (TypeError, AssertionError), lambda: C(N_i=N, Omega_Ki=-K * V, **kw))
    one = p.real('one', sample=.3)
    y0 = vec(p, [0] * len(eq.idx))
    p.raises('eta_i missing', (TypeError, AssertionError, p.mod('primpy.exceptionhandling').PrimpyError),
             lambda: C(N_i=N, t_i=one, **kw)(y0=y0))
    if which == 'N':
        p.raises('t_i missing', (TypeError, AssertionError, p.mod('primpy.exceptionhandling').PrimpyError),
                 lambda: C(N_i=N, eta_i=one, **kw)(y0=y0))


class Sol:
    pass


OUT = ['end', 'until', 'limit', 'collapse', 'no inflation', 'step size', 'other']


def shoot(p, cls, K, which, inp):
    icm = p.mod('primpy.initialconditions')
    bv = p.pos('V_bracket', sample=9.)
    f, V, dV, pot, eq = setup(p, K, which, True, True, other=bv)
    lo, hi = p.real('phi_lo', sample=2.), p.real('phi_hi', sample=8.)
    t_i, eta_i, x_end = p.real('t_i', sample=1.5), p.real('eta_i', sample=-.4), p.real('x_end', sample=1e4)
    kw = dict(equations=eq, phi_i_bracket=[lo, hi], t_i=t_i, eta_i=eta_i, x_end=x_end)
    if inp == 'N_i':
        N = p.real('N_i', sample=2.1)
        p.assume(bv / 2 * np.exp(2 * N) > K)
        kw['N_i'] = N
    else:
        O = -p.pos('Omega', sample=0.4) if K == 1 else p.pos('Omega', hi=1, sample=0.4)
        kw['Omega_Ki'] = O
    if cls == 'ISIC_Nt':
        target = p.pos('N_tot', sample=60.)
        ic = icm.ISIC_Nt(N_tot=target, **kw)
    else:
        target = p.pos('N_star', sample=55.)
        OK, h = (p.real('Omega_K0', sample=-.01) if K == 1 else p.real('Omega_K0', sample=.01)), \
            p.pos('h', sample=.7)
        p.assume(OK < 0 if K == 1 else OK > 0)
        N0v = p.var('N_today', lo=0, sample=140.)
        asked = {}
        bb = icm.bb
        real_a0 = bb.get_a0

        def get_a0(*a, **k):
            b = inspect.signature(real_a0).bind(*a, **k)
            b.apply_defaults()
            asked.update(b.arguments)
            return np.exp(N0v)
        bb.get_a0 = get_a0
        try:
            ic = icm.ISIC_NsOk(N_star=target, Omega_K0=OK, h=h, **kw)
        finally:
            bb.get_a0 = real_a0
        p.eq('h today', asked.get('h'), h)
        p.eq('Omega_K0 today', asked.get('Omega_K0'), OK)
        p.eq('units', asked.get('units'), 'planck')
        p.eq('N0', ic.N0, N0v)
    outcome = p.choice('outcome', OUT)
    rec = {}

    def steps(a, b):
        return vec(p, [a, (a + b) / 2, b])

    def solve(ic2, events=(), **k):
        rec['kwargs'] = k
        y0 = vec(p, [0] * len(eq.idx))
        ic2(y0=y0)
        rec['y0'] = y0
        ev = {e.name: e for e in events}
        s = Sol()
        rec['sol'] = s
        s.message = {'step size': 'Required step size is less than spacing between numbers.'}.get(
            outcome, 'whatever')
        N0 = ic2.N_i
        emp = np.array([])
        s._N_events = {k: emp for k in ev}
        s.N_tot = float('nan')
        s._N = steps(N0, N0 + p.pos('elapsed', sample=3.))

        # the limit event has to be beyond the target
        lim = vec(p, [0] * len(eq.idx))
        reach = N0 + target if cls == 'ISIC_Nt' else ic.N0
        if '_N' in eq.idx:
            lim[eq.idx['_N']] = reach
        u = ev['UntilN'](reach, lim)
        p.true('limit not before the target', u <= 0)
        p.true('limit and collapse stop', bool(ev['UntilN'].terminal) and bool(ev['Collapse'].terminal)
               and bool(ev['Inflation_dir-1_term1'].terminal) and 'Inflation_dir1_term0' in ev)
        gap = 0 - u
        if outcome == 'end':
            n = p.pos('N_tot_found', sample=61.)
            s.N_tot = n
            s._N = steps(N0, N0 + n + 1)
            if cls == 'ISIC_NsOk':
                p.assume(s._N[-1] < reach)
            s._N_events['Inflation_dir-1_term1'] = vec(p, [N0 + n])

            def cal(**k):
                rec['cal'] = k
                s.N_star = p.real('N_star_found', sample=54.)
            s.calibrate_scale_factor = cal
        elif outcome == 'until':
            s._N = steps(N0, reach + gap)
            s._N_events['UntilN'] = vec(p, [reach + gap])
        elif outcome == 'limit':
            s._N = steps(N0, reach + p.pos('beyond', sample=1.))
            if cls == 'ISIC_Nt':
                p.assume(s._N[-1] < reach + gap)
        else:
            p.assume(s._N[-1] < reach)
        if outcome == 'collapse':
            s._N_events['Collapse'] = vec(p, [s._N[-1]])
        elif outcome == 'no inflation':
            s._N_events['Inflation_dir-1_term1'] = vec(p, [N0])
        return s

    def root(fun, args=(), method=None, bracket=None, *a, **k):
        p.eq('bracket', list(bracket), [lo, hi])
        rec['out'] = p.outcome(lambda: fun(f, *args))
        o = Sol()
        o.root = f
        return o
    old, oldr = icm.solve, icm.root_scalar
    icm.solve, icm.root_scalar = solve, root
    try:
        y0 = vec(p, [0] * len(eq.idx))
        ret = p.outcome(lambda: ic(y0=y0, rtol=1))
    finally:
        icm.solve, icm.root_scalar = old, oldr
    st, val = rec['out']
    # what the shooting function reports for this trial field
    if 'sol' not in rec:
        # start impossible at this field value
        p.true('start is impossible', V / 2 * np.exp(2 * ic.N_i) < K if inp == 'N_i' else V < 0)
        if cls == 'ISIC_Nt':
            p.eq('impossible start', st, 'ok')
            p.true('impossible start counts as too little', val < 0)
        else:
            p.eq('impossible start', (st, val)[1], 'InflationStartError')
        return
    if outcome == 'end':
        p.eq('no failure', st, 'ok')
        s = rec['sol']
        if cls == 'ISIC_Nt':
            p.eq('shooting function', val, s.N_tot - target, scale=60.)
        elif 'cal' in rec:
            p.true('enough e-folds', s.N_tot > target)
            p.eq('calibrated with Omega_K0', rec['cal'].get('Omega_K0'), OK)
            p.eq('calibrated with h', rec['cal'].get('h'), h)
            p.eq('shooting function', val, s.N_star - target, scale=60.)
        else:
            p.true('too few e-folds', s.N_tot <= target)
            p.true('too little', val < 0)
    elif outcome in ('until', 'limit'):
        p.eq('no failure', st, 'ok')
        p.true('too much', val > 0)
    elif outcome in ('collapse', 'no inflation'):
        p.eq('no failure', st, 'ok')
        p.true('too little', val < 0)
    else:
        p.eq('failure is reported', st, 'raise')
        p.eq('kind of failure', val, 'StepSizeError' if outcome == 'step size' else 'PrimpyError')
        return
    p.eq('options are passed on', rec['kwargs'].get('rtol'), 1)
    # the initial conditions left behind are those at the root
    p.eq('finished', ret[0], 'ok')
    p.eq('root', ret[1][0], f)
    p.eq('phi_i', ic.phi_i, f)
    if inp == 'N_i':
        p.eq('N_i', ic.N_i, kw['N_i'])
    else:
        p.eq('Omega_Ki', ic.Omega_Ki, kw['Omega_Ki'])

    def again(y0=None):
        pass
    ic2 = ic
    N = ic2.N_i
    H2 = V / 2 - K * np.exp(-2 * N)
    p.eq('H_i', ic2.H_i**2, H2)
    u = y0[eq.idx['dphidt']] if 'dphidt' in eq.idx else y0[eq.idx['dphidN']] * ic2.H_i
    p.eq('start of inflation', u**2, V)
    p.eq('phi', y0[eq.idx['phi']], f)
    p.eq('N', y0[eq.idx['_N']] if '_N' in eq.idx else ic2.x_ini, N)
    p.eq('eta', y0[eq.idx['eta']], eta_i)


def jobs(tier):
    out = []
    for cls in 'SlowRollIC', 'InflationStartIC':
        for w in 't', 'N':
            out.append(Job('%s %s refusals' % (cls, w), refusals, dict(cls=cls, which=w)))
            for K in (0, 1, -1):
                for eta in (False, True):
                    for tm in ((False, True) if w == 'N' else (False,)):
                        for inp in ('N_i', 'Omega_Ki', 'too open'):
                            if K == 0 and inp != 'N_i' or K == 1 and inp == 'too open':
                                continue
                            out.append(Job('%s %s K=%d %s%s%s' % (cls, w, K, inp, ' eta' * eta, ' time' * tm),
                                           static, dict(cls=cls, K=K, which=w, eta=eta, time=tm, inp=inp)))
    for cls in 'ISIC_Nt', 'ISIC_NsOk':
        for w in 't', 'N':
            for K in ((0, 1, -1) if cls == 'ISIC_Nt' else (1, -1)):
                for inp in ('N_i', 'Omega_Ki') if K else ('N_i',):
                    out.append(Job('%s %s K=%d %s' % (cls, w, K, inp), shoot,
                                   dict(cls=cls, K=K, which=w, inp=inp)))
    return out
