"""C20: labels of solutions and events."""
import warnings
import numpy as np
import sympy as sp
from types import SimpleNamespace
from symex.engine import Job
from .common import TRUSTED, library
from .background import MultiPot, State, columns, state_vector, vec

PRELOAD = ('primpy.time.inflation', 'primpy.efolds.inflation', 'primpy.solver', 'primpy.events')
EXPLANATION = ('The solver wrapper and the post-processing run on the result of an integrator that returns arbitrary '
               'states at its nodes and events; the solver decides that every label carries its own data, that the '
               'start and end of inflation are those of the recorded events or of the initial state, and that '
               'event functions vanish exactly on their surfaces.')
BOUNDS = ('3 nodes (2 for start and end in the quick tier), up to 2 recorded states per event, every subset of the start, end and collapse events recorded or '
          'missing, curvature -1, 0, 1, both time variables, optional time and conformal time tracking, positive '
          'scale factor, Hubble rate and potential at the nodes')
ASSUMPTIONS = list(TRUSTED) + ['the integrator returns the recorded states in the layout of scipy.integrate.solve_ivp '
                               '(one row of events per requested event)']
NODES = 3


class Setup:
    """Equations over a potential known at some unrelated states."""

    def __init__(self, p, K, which, n, eta, time, verbose=False, dphi0=-.9):
        self.p, self.K, self.which = p, K, which
        self.states = [State(p, K, str(i), dphi=-.9 if i else dphi0, phi=3.3 + .37 * i) for i in range(n)]
        for s in self.states:
            p.assume(s.V0 > 0)
            if which == 'N':
                p.assume(6 * s.H**2 != s.dphi**2)
        self.pot = MultiPot(p, self.states)
        if which == 't':
            self.eq = p.mod('primpy.time.inflation').InflationEquationsT(
                K=K, potential=self.pot, track_eta=eta, verbose=verbose)
        else:
            self.eq = p.mod('primpy.efolds.inflation').InflationEquationsN(
                K=K, potential=self.pot, track_eta=eta, track_time=time, verbose=verbose)
        self.vals = []
        for i, s in enumerate(self.states):
            self.vals.append(dict(phi=s.phi, dphidt=s.dphi, dphidN=s.q, _N=s.N,
                                  t=p.real('t%d' % i, sample=2.5 + i), eta=p.real('eta%d' % i, sample=-.4 + i)))
        self.xname = 't' if which == 't' else '_N'

    def x(self, i):
        return self.vals[i][self.xname]

    def y(self, i):
        return state_vector(self.p, self.eq, self.vals[i])


def log(p, v):
    return np.log(v) if p.mode == 'real' else p.fn(sp.log, v)


def nan_(x):
    if hasattr(x, 'e'):
        return x.e is sp.nan
    return bool(np.isnan(float(x)))


KEYS = {'beg0': 'Inflation_dir1_term0', 'beg1': 'Inflation_dir1_term1',
        'end1': 'Inflation_dir-1_term1', 'end0': 'Inflation_dir-1_term0', 'col': 'Collapse',
        'until': 'UntilN'}


def run(p, S, tracked, fired, nodes=NODES):
    """Integrate with the given events; `fired` maps an event to the states it recorded."""
    ev = p.mod('primpy.events')
    sol_mod = p.mod('primpy.solver')
    OdeResult = __import__('scipy.integrate._ivp.ivp', fromlist=['OdeResult']).OdeResult
    make = {'beg0': lambda: ev.InflationEvent(S.eq, +1, terminal=False),
            'beg1': lambda: ev.InflationEvent(S.eq, +1, terminal=True),
            'end1': lambda: ev.InflationEvent(S.eq, -1, terminal=True),
            'end0': lambda: ev.InflationEvent(S.eq, -1, terminal=False),
            'col': lambda: ev.CollapseEvent(S.eq),
            'until': lambda: ev.UntilNEvent(S.eq, 60.)}
    events = [make[e]() for e in tracked]
    for e, o in zip(tracked, events):
        p.eq('name of %s' % e, o.name, KEYS[e])
    seen = {}
    xi, xe = p.real('x_ini', sample=1.), p.real('x_end', sample=90.)
    start = {k: p.real('start_' + k, sample=.3) for k in S.eq.idx}

    def ic(y0, **kw):
        seen['ic'] = kw
        for k, i in S.eq.idx.items():
            y0[i] = start[k]
    ic_ = type('IC', (), dict(equations=S.eq, x_ini=xi, x_end=xe,
                              __call__=lambda self, y0, **kw: ic(y0, **kw)))()

    def integrator(fun, t_span, y0, method=None, t_eval=None, dense_output=False, events=None, **kw):
        seen.update(fun=fun, span=t_span, y0=y0, method=method, events=events, t_eval=t_eval, kw=kw)
        r = OdeResult(t=vec(p, [S.x(i) for i in range(nodes)]),
                      y=columns(p, [S.y(i) for i in range(nodes)]), success=True, status=1, message='')
        te, ye = [], []
        for e in tracked:
            rec = fired.get(e, ())
            te.append(vec(p, [S.x(i) for i in rec]) if rec else np.array([]))
            ye.append(columns(p, [S.y(i) for i in rec]).T if rec else np.array([]))
        r.t_events, r.y_events = te, ye
        return r
    opt = dict(t_eval='grid', max_step=.5)
    p.warnings.clear()
    with warnings.catch_warnings(record=True) as w, library(p, 'solve_ivp', integrator):
        warnings.simplefilter('always')
        sol = sol_mod.solve(ic_, events=events, **opt)
    names = [c.__name__ for c, m in p.warnings] + [x.category.__name__ for x in w]
    texts = [m for c, m in p.warnings] + [str(x.message) for x in w]
    p.true('equations integrated', seen['fun'] is S.eq)
    p.eq('interval', [seen['span'][0], seen['span'][1]], [xi, xe])
    p.eq('start', [seen['y0'][i] for i in S.eq.idx.values()], [start[k] for k in S.eq.idx])
    p.true('events passed', list(seen['events']) == events)
    p.true('options passed', seen['t_eval'] == 'grid' and seen['kw'].get('max_step') == .5
           and seen['method'] == 'RK45')
    p.true('options reach the initial conditions', seen['ic'].get('t_eval') == 'grid')
    return sol, names, texts


def labels(p, K, which, eta, time):
    """Rows, derived quantities and events of a solution."""
    S = Setup(p, K, which, NODES + 4, eta, time)
    # (the start, end and mask are decided by start_end: one branch suffices here)
    p.assume(S.states[0].V0 >= S.states[0].dphi**2)
    for i, j in ((0, 1), (1, 2), (2, 5)):
        p.assume(S.states[i].a <= S.states[j].a)
    tracked = ['beg0', 'end1', 'until']
    fired = {'beg0': (3, 4), 'end1': (5,), 'until': ()}
    sol, _, _ = run(p, S, tracked, fired)
    p.eq('independent variable', sol.independent_variable, S.xname)
    p.eq('x', sol.x, vec(p, [S.x(i) for i in range(NODES)]))
    p.eq('x by name', getattr(sol, S.xname), vec(p, [S.x(i) for i in range(NODES)]))
    if which == 'N' and not time:
        p.true('no time', not hasattr(sol, 't'))
    for k in S.eq.idx:
        p.eq('row ' + k, getattr(sol, k), vec(p, [S.vals[i][k] for i in range(NODES)]))
        e = getattr(sol, k + '_events')
        p.eq('events known of ' + k, sorted(e) == sorted(KEYS[t] for t in tracked), True)
        for t in tracked:
            p.eq('events %s of %s' % (t, k), e[KEYS[t]], vec(p, [S.vals[i][k] for i in fired[t]]))
    for t in tracked:
        ref = vec(p, [S.x(i) for i in fired[t]])
        p.eq('x events ' + t, sol.x_events[KEYS[t]], ref)
        p.eq('x events by name ' + t, getattr(sol, S.xname + '_events')[KEYS[t]], ref)
        for j, i in enumerate(fired[t]):
            p.eq('y events %s %d' % (t, j), sol.y_events[KEYS[t]][j], S.y(i))
    p.true('own potential', sol.potential is S.pot)
    p.eq('K', sol.K, K)
    for i, s in enumerate(S.states[:NODES]):
        p.eq('H %d' % i, sol.H[i], s.H)
        p.eq('w %d' % i, sol.w[i], (s.dphi**2 / 2 - s.V0) / (s.dphi**2 / 2 + s.V0))
        p.eq('_logaH %d' % i, sol._logaH[i], log(p, s.a) + log(p, s.H))
        p.eq('Omega_K %d' % i, sol.Omega_K[i], -K / (s.a * s.H)**2)


def start_end(p, K, which, inflating, beg, end, col, nodes):
    """Start and end of inflation."""
    S = Setup(p, K, which, NODES + 4, False, False, verbose=True, dphi0=-.9 if inflating else -3.1)
    s0 = S.states[0]
    p.assume(s0.V0 >= s0.dphi**2 if inflating else s0.V0 < s0.dphi**2)
    tracked, fired = [], {}
    for e, st in ((beg, (3, 4)), (end, (5, 6)), (col, (6,))):
        if e:
            tracked.append(e.rstrip('-'))
            if not e.endswith('-'):
                fired[e] = st
    sol, names, texts = run(p, S, tracked, fired, nodes)
    # start
    if col == 'col':
        first = None
        p.true('collapse reported', 'CollapseWarning' in names)
    else:
        first = s0 if inflating else S.states[3] if beg in fired else None
        p.true('collapse not reported', 'CollapseWarning' not in names)
    missing = first is None and col != 'col'
    p.true('missing start reported', ('InflationStartWarning' in names) == missing)
    if missing:
        t = [x for x, n in zip(texts, names) if n == 'InflationStartWarning']
        p.true('untracked start events are named', ('Not tracking' in str(t)) == (not beg))
    if first is None:
        p.true('start undetermined', nan_(sol._N_beg) and nan_(sol.H_beg) and nan_(sol._logaH_beg))
    else:
        p.eq('_N_beg', sol._N_beg, first.N)
        p.eq('H_beg', sol.H_beg, first.H)
        p.eq('_logaH_beg', sol._logaH_beg, log(p, first.a) + log(p, first.H))
    last = S.states[5] if end in fired else None
    p.true('missing end reported', ('InflationEndWarning' in names) == (last is None))
    if last is None:
        t = [x for x, n in zip(texts, names) if n == 'InflationEndWarning']
        p.true('untracked end events are named', ('Not tracking' in str(t)) == (not end))
        for k in '_N_end', '_logaH_end', 'phi_end', 'H_end', 'V_end':
            p.true('%s undetermined' % k, nan_(getattr(sol, k)))
    else:
        p.eq('_N_end', sol._N_end, last.N)
        p.eq('_logaH_end', sol._logaH_end, log(p, last.a) + log(p, last.H))
        p.eq('phi_end', sol.phi_end, last.phi)
        p.eq('H_end', sol.H_end, last.H)
        p.eq('V_end', sol.V_end, last.V0)
    if first is None or last is None:
        p.true('duration undetermined', nan_(sol.N_tot))
        p.true('no mask', not hasattr(sol, 'inflation_mask'))
        return
    p.eq('N_tot', sol.N_tot, last.N - first.N)
    p.eq('mask size', len(sol.inflation_mask), nodes)
    for i, s in enumerate(S.states[:nodes]):
        inside = (s.a > first.a) & (s.a < last.a)
        m = sol.inflation_mask[i]
        p.true('mask %d' % i, (m & inside) | (~m & ~inside) if p.mode == 'sym' and not isinstance(m, (bool, np.bool_))
               and not isinstance(inside, (bool, np.bool_)) else bool(m) == bool(inside))


def surfaces(p, K, which):
    """Event functions vanish exactly on their surfaces, with the declared direction."""
    ev = p.mod('primpy.events')
    S = Setup(p, K, which, 1, False, which == 'N')
    s, eq = S.states[0], S.eq
    x, y = S.x(0), S.y(0)
    v = p.real('value', sample=.7)
    k = p.pos('mode', sample=2.9)
    w = (s.dphi**2 / 2 - s.V0) / (s.dphi**2 / 2 + s.V0)
    table = [('Inflation', ev.InflationEvent(eq, -1, value=v), s.V0 - s.dphi**2 - v),
             ('UntilT', ev.UntilTEvent(eq, v), S.vals[0]['t'] - v),
             ('UntilN', ev.UntilNEvent(eq, v), s.N - v),
             ('AfterInflationEnd', ev.AfterInflationEndEvent(eq, value=v), w - v),
             ('Collapse', ev.CollapseEvent(eq, value=v), s.H**2 - v),
             ('Phi0', ev.Phi0Event(eq, value=v), s.phi - v),
             ('ModeExit', ev.ModeExitEvent(eq, k), log(p, s.a) + log(p, s.H) - log(p, k))]
    for name, e, ref in table:
        p.eq(name, e(x, y), ref)
        p.true(name + ' name', e.name.startswith(name))
        p.true(name + ' is terminal by default', e.terminal is (name != 'Inflation'))
        p.eq(name + ' direction', e.direction, {'Inflation': -1, 'AfterInflationEnd': 1}.get(name, 0))
    # defaults put the surface where the name says
    for name, e, ref in [('Inflation default', ev.InflationEvent(eq), s.V0 - s.dphi**2),
                         ('AfterInflationEnd default', ev.AfterInflationEndEvent(eq), w),
                         ('Collapse default', ev.CollapseEvent(eq), s.H**2),
                         ('Phi0 default', ev.Phi0Event(eq), s.phi)]:
        p.eq(name, e(x, y), ref)
    # inflation is accelerated expansion: the surface is where a'' changes sign
    add = -s.dphi**2 / 3 + s.V0 / 3          # addot / a
    p.eq('acceleration', 3 * add, ev.InflationEvent(eq)(x, y))
    # at a given initial instant the event keeps the side it starts from
    for d in (1, -1):
        for t in (True, False):
            e = ev.InflationEvent(eq, d, terminal=t, t_i=x)
            p.eq('start %d %s' % (d, t), e(x, y), d)
            p.eq('name %d %s' % (d, t), e.name, 'Inflation_dir%d_term%d' % (d, t))
            p.true('terminal %d %s' % (d, t), e.terminal is t)
            e = ev.InflationEvent(eq, d, terminal=t, t_i=x + 1)
            p.eq('later %d %s' % (d, t), e(x, y), s.V0 - s.dphi**2)


def jobs(tier):
    out = []
    for w in ('t', 'N'):
        for K in (0, 1, -1):
            out.append(Job('%s K=%d surfaces' % (w, K), surfaces, dict(K=K, which=w)))
            for eta in (False, True):
                for tm in ((False, True) if w == 'N' else (False,)):
                    if tier == 'quick' and K and not eta:
                        continue
                    out.append(Job('%s K=%d labels%s%s' % (w, K, ' eta' * eta, ' time' * tm), labels,
                                   dict(K=K, which=w, eta=eta, time=tm)))
            for infl in (True, False):
                for beg in ('', 'beg0-', 'beg0', 'beg1'):
                    for end in ('', 'end1-', 'end1', 'end0'):
                        for col in ('', 'col-', 'col'):
                            full = beg == 'beg0' and end == 'end1'
                            if tier == 'quick' and K and not (full or (w == 't' and infl is False and not col)):
                                continue
                            out.append(Job('%s K=%d start%s [%s %s %s]' % (w, K, ' inflating' * infl, beg, end, col),
                                           start_end, dict(K=K, which=w, inflating=infl, beg=beg, end=end, col=col,
                                                             nodes=2 if tier == 'quick' else NODES)))
    return out
