"""C23: slow-roll spectra handed to the sampler."""
import contextlib
import itertools
import types
import numpy as np
from scipy.integrate._ivp.ivp import OdeResult
from symex.engine import Job
from .background import vec
from .common import TRUSTED, library, potentials_table

PRELOAD = ('cobaya_wrapper.slowroll_pps', 'primpy.potentials', 'primpy.units', 'primpy.time.inflation')
EXPLANATION = ('The slow-roll sampler components are executed with symbolic parameters against solutions that obey only the '
               'contracts of the integrator, of the calibration (C10-C12) and of setting n_s (C19): their amplitude, reheating history '
               'and spectra are arbitrary. z3 decides that accepted points carry the requested amplitude, calibration '
               'and reheating history, that spectra and derived parameters all belong to that one calibration, and that a point '
               'is refused exactly if its amplitude cannot be met, it reheats above the energy density at the end of inflation, '
               'or its reheating history is impossible.')
BOUNDS = ('every amplitude, energy density, equation of state and calibration result; all combinations of requested '
          'parameters; eleven trials with arbitrary amplitudes, or amplitudes with the exact scaling; two wavenumbers; '
          'every potential offered, with arbitrary parameters')
ASSUMPTIONS = list(TRUSTED) + [
    'the integrator and the calibration routines are replaced by their contracts (decided in C07-C12, C18-C20)',
    'the components are created without the surrounding cobaya model (its base class only stores options)',
    'the last grid point of inflation is not after its end, so the energy density there is not below that at the end; densities '
    'between the two may be refused or accepted']
nan = float('nan')
SAMPLE = dict(N_star=55., n_s=.965, rho_reh_GeV=3e10, w_reh=.1)


def component(p, cls='QuadraticSlowRollPPS'):
    m = p.mod('cobaya_wrapper.slowroll_pps')
    c = getattr(m, cls)
    o = c.__new__(c)
    o.mpi_info = lambda *a, **k: None
    o.initialize()
    return m, o


def density(p, i):
    """Energies at the last grid point of inflation and at its end."""
    D = types.SimpleNamespace(dphi=p.real('dphi%d' % i, sample=-2.7e-6), V=p.pos('V_last%d' % i, sample=9e-12))
    D.rho = D.dphi**2 / 2 + D.V
    D.V_end = p.pos('g%d' % i, sample=.93, hi=1) * D.rho * 2 / 3
    return D


class Energy:
    def __init__(self, D):
        self.D = D

    def V(self, phi):
        return self.D.V if abs(phi - 1.45) < .01 else self.D.V_end


class Solution(OdeResult):
    """Finished background solution; one of its calibrations at a time is current."""

    def __init__(self, p, i, ic, A_s, want, impossible):
        self.p, self.i, self.want, self.impossible = p, i, want, impossible
        self.A_s_ = A_s
        self.success, self.message = True, ''
        self.N_tot = p.pos('N_tot%d' % i, sample=93.)
        self.phi = vec(p, [7.1, 4.2, 1.45, 1.38])
        self.inflation_mask = np.array([False, True, True, False])
        D = density(p, i)
        self.potential = Energy(D)
        self.dphidt = vec(p, [0., 0., D.dphi, 0.])
        self.rho_last, self.V_end = D.rho, D.V_end
        self.phi_end, self.H_end = 1.4, (self.V_end / 2)**.5 if p.mode == 'real' else np.sqrt(self.V_end / 2)
        self.H = vec(p, [0., 0., (self.rho_last / 3)**.5 if p.mode == 'real' else np.sqrt(self.rho_last / 3), 0.])
        self.count = 0

    def calibrate_scale_factor(self, calibration_method='N_star', Omega_K0=None, h=None, N_star=None, background=None,
                               DeltaN_reh=None, w_reh=None, rho_reh_GeV=None, g_th=1e2, DeltaN_minus1=None, **kw):
        p = self.p
        self.count += 1
        t = '%d_%d' % (self.i, self.count)
        if Omega_K0 or background is not None:
            raise ValueError('not for flat universes')
        reh = [x is not None for x in (w_reh, rho_reh_GeV, DeltaN_reh, DeltaN_minus1)]
        if calibration_method == 'N_star':
            if N_star is None or not bool(N_star > 0) or reh not in ([False] * 4, [False, True, False, False],
                                                                     [True, False, False, False]):
                raise ValueError
            self.N_star = N_star
            known = any(reh)
        elif calibration_method == 'reheating':
            if N_star is not None or reh not in ([True, True, False, False],):
                raise ValueError
            self.N_star = p.pos('N_star_' + t, sample=51.)
            known = True
        else:
            raise NotImplementedError
        self.rho_reh_GeV = rho_reh_GeV if rho_reh_GeV is not None else nan
        self.w_reh = w_reh if w_reh is not None else p.real('w_' + t, sample=.2) if known else nan
        self.DeltaN_reh = p.real('DN_' + t, sample=3.) if known else nan
        self.DeltaN_minus1 = p.real('D1_' + t, sample=-.3)
        self.N0 = 0
        self.N_reh = p.real('N_reh_' + t, sample=-50.) if known else nan
        self.N_end = p.real('N_end_' + t, sample=-60.)
        self.n_s_ = p.real('ns_' + t, sample=.961)
        self.setup(t)

    def setup(self, t):
        p = self.p
        self.n_s = self.n_s_
        self.A_s = self.A_s_(self, t)
        for k in ('n_run', 'n_runrun', 'A_t', 'n_t', 'r'):
            setattr(self, k, p.real('%s_%s' % (k, t), sample=.01))
        # spectra: every calibration has its own
        self.shape = {k: p.real('%s_%s' % (k, t), sample=.37 + .1 * self.count) for k in 'st'}

    def set_ns(self, n_s, N_star_min=20, N_star_max=90, rho_reh_GeV=None, **kw):
        p = self.p
        if not bool(N_star_min < N_star_max):
            raise ValueError
        if p.choice('n_s in reach', [True, False]) is False:
            raise p.mod('primpy.exceptionhandling').PrimpyError
        f = p.pos('f%d' % self.i, sample=.4, hi=1)
        self.calibrate_scale_factor(N_star=N_star_min + f * (N_star_max - N_star_min), rho_reh_GeV=rho_reh_GeV)
        self.n_s = n_s

    def P_s_approx(self, k):
        return self.shape['s'] * k

    def P_t_approx(self, k):
        return self.shape['t'] * k


@contextlib.contextmanager
def collaborators(p, m, solve):
    """Replace the background solver and its initial conditions, wherever the component looks them up."""
    class SlowRollIC:
        def __init__(self, equations, phi_i, t_i=None, eta_i=None, x_end=1e300, **k):
            self.__dict__.update(k, equations=equations, phi_i=phi_i, t_i=t_i, eta_i=eta_i, x_end=x_end)
    saved = []
    for mod in (m, p.mod('primpy.solver'), p.mod('primpy.initialconditions')):
        for name, new in (('solve', solve), ('SlowRollIC', SlowRollIC)):
            if hasattr(mod, name):
                saved.append((mod, name, getattr(mod, name)))
                setattr(mod, name, new)
    try:
        yield
    finally:
        for x in saved:
            setattr(*x)


def run(p, given, amplitudes, cls='QuadraticSlowRollPPS', par=(), fail=None):
    """One call of calculate, with everything that was seen on the way."""
    m, o = component(p, cls)
    ks = [p.pos('k1', sample=.003), p.pos('k2', sample=1.7)]
    o.ks = vec(p, ks)
    want = {'A_s': p.pos('A_s', sample=2.1e-9)}
    for k in given:
        want[k] = (p.real if k == 'w_reh' else p.pos)(k, sample=SAMPLE[k])
    if 'rho_reh_GeV' in given:
        u = p.mod('primpy.units')
        want['rho_reh_GeV'] = (p.pos('f', sample=.7) * density(p, 0).rho * u.mp_GeV / u.lp_iGeV**3)**(
            p.S(1) / 4 if p.mode == 'sym' else 1 / 4)
    want.update(par)
    sols = []

    def solve(ic, *a, **k):
        i = len(sols)
        s = Solution(p, i, ic, amplitudes, want, None)
        s.ic, s.args = ic, k
        s.Lambda = ic.equations.potential.Lambda
        sols.append(s)
        if fail == i:
            s.success = False
        return s
    state = {}
    with collaborators(p, m, solve):
        out = p.outcome(lambda: o.calculate(state, **want))
    return o, want, state, sols, out


def request(p, given, scale=False):
    """The accepted calibration is the requested one; refusals are the documented ones."""
    if scale:
        # the amplitude is proportional to Lambda**4: the second trial meets it
        C = p.pos('C', sample=.037)
        amp = lambda s, t: C * s.Lambda**4
    else:
        # the amplitude is met at once
        amp = lambda s, t: s.want['A_s']
    o, want, state, sols, (out, exc) = run(p, given, amp)
    u = p.mod('primpy.units')
    s = sols[-1]
    p.true('trials', len(sols) <= (2 if scale else 1))
    unit = u.mp_GeV / u.lp_iGeV**3
    rho = want.get('rho_reh_GeV')
    if rho is not None:
        r4 = rho**4
        surely = r4 > s.rho_last * unit * (1 + 1e-9 if p.mode == 'real' else 1)
        fine = r4 <= s.V_end * 3 / 2 * unit * (1 - 1e-9 if p.mode == 'real' else 1)
    met = abs(amp(s, '') - want['A_s']) <= want['A_s'] / 10**5 + p.S(1) / 10**13
    if out != 'ok':
        p.true('refused as impossible', exc in ('PrimpyError', 'ValueError'))
        p.true('no spectra', 'primordial_scalar_pk' not in state and 'primordial_tensor_pk' not in state)
        if p_choice(p, 'n_s in reach') is False or exc == 'ValueError':
            return
        p.true('judged at the requested amplitude', met)
        bad = False
        if s.count and known(s.w_reh):
            bad = (s.w_reh <= -third(p)) | (s.w_reh >= 1) | (s.DeltaN_reh < 0) | (s.N_reh > s.N0)
        if rho is not None:
            bad = ~fine | bad if p.mode == 'sym' else not fine or bad
        p.true('only impossible reheating histories or above the density at the end of inflation', bad)
        return
    if rho is not None:
        p.true('refused above the density at the end of inflation', ~surely if p.mode == 'sym' else not surely)
    if known(s.w_reh):
        good = (s.w_reh > -third(p)) & (s.w_reh < 1) & (s.DeltaN_reh >= 0) & (s.N_reh <= s.N0)
        p.true('possible reheating history', good)
    if 'w_reh' in given and rho is not None:
        p.eq('w_reh', s.w_reh, want['w_reh'])
        p.eq('rho_reh', s.rho_reh_GeV, rho)
    else:
        if rho is not None:
            p.eq('rho_reh', s.rho_reh_GeV, rho)
        if 'n_s' in given:
            p.eq('n_s', s.n_s, want['n_s'])
            if 'N_star' in given:
                p.true('N_star is an upper bound', s.N_star <= want['N_star'])
        elif 'N_star' in given:
            p.eq('N_star', s.N_star, want['N_star'])
    p.true('amplitude', met)
    p.eq('final amplitude', s.A_s, amp(s, ''))
    result(p, o, state, s)


def known(x):
    return x == x


def p_choice(p, name):
    if p.mode == 'sym':
        return p.vars.get('__choices', {}).get(name)
    return p.choices.get(name)


def third(p):
    return p.S(1) / 3 if p.mode == 'sym' else 1 / 3


def result(p, o, state, s):
    """Spectra and derived parameters are those of the calibrated solution."""
    o._current_state = state
    for typ, get, q in (('scalar', o.get_primordial_scalar_pk, 's'), ('tensor', o.get_primordial_tensor_pk, 't')):
        d = get()
        p.true('%s source' % typ, d is state['primordial_%s_pk' % typ])
        p.eq('%s kmin' % typ, d['kmin'], o.kmin)
        p.eq('%s kmax' % typ, d['kmax'], o.kmax)
        p.true('%s spacing' % typ, d['log_regular'] is True)
        p.eq('%s size' % typ, len(d['Pk']), 2)
        for i in range(2):
            p.eq('%s P%d' % (typ, i), d['Pk'][i], s.shape[q] * o.ks[i])
    names = o.get_can_provide_params()
    p.eq('derived', sorted(state['derived']), sorted(names))
    for k in sorted(names):
        a, b = state['derived'][k], getattr(s, k)
        p.true('derived %s defined' % k, (a != a) == (b != b) if isinstance(a, float) or isinstance(b, float) else True)
        if not (isinstance(b, float) and b != b):
            p.eq('derived ' + k, a, b)


def shooting(p, side):
    """Arbitrary amplitudes in every trial."""

    def amplitude(s, t):
        up = side == 'above' or side == 'alternating' and s.i % 2
        return s.want['A_s'] * (1 + p.pos('up%d' % s.i, sample=.1) if up else 1 - p.pos('down%d' % s.i, sample=.1, hi=1))
    o, want, state, sols, (out, exc) = run(p, ('N_star',), amplitude)
    A = want['A_s']
    s = sols[-1]
    if out == 'ok':
        p.true('amplitude', abs(s.A_s - A) <= A / 10**5 + p.S(1) / 10**13)
        result(p, o, state, s)
        return
    p.eq('kind of refusal', exc, 'PrimpyError')
    p.true('several trials', len(sols) >= 2)
    p.true('no spectra', 'primordial_scalar_pk' not in state)
    p.true('missed', abs(s.A_s - A) > A / 10**8)


def failed(p):
    """A failed integration is no result."""
    i = p.choice('failed', [0, 1])
    o, want, state, sols, (out, exc) = run(p, ('N_star',), lambda s, t: p.pos('A%d' % s.i, sample=2e-9 + 1e-10 * s.i),
                                           fail=i)
    if len(sols) <= i:
        return
    p.eq('refused', out, 'raise')
    p.true('kind of refusal', exc in ('StepSizeError', 'PrimpyError'))
    p.true('no spectra', 'primordial_scalar_pk' not in state)


def calibrated(p, given):
    """With the actual calibration: everything promised is there."""
    from .calib import Background
    from .c19 import spline_class
    m, o = component(p)
    o.ks = vec(p, [p.pos('k1', sample=.003), p.pos('k2', sample=1.7)])
    want = {'A_s': p.pos('A_s', sample=2.1e-9)}
    B = Background(p, 0, 4, dn=(3., 20., 31., 97., 9.), grid=True)
    B.sol.success = True
    for k in given:
        want[k] = {'N_star': p.S(55), 'rho_reh_GeV': p.S(10**12), 'w_reh': p.S(1) / 10}[k]
    N_star = want.get('N_star', p.S(75))
    p.assume(B.N[-1] - N_star >= B.N[3])
    p.assume(B.N[-1] - N_star <= B.N[4])
    d = [p.real('d%d' % i, sample=-.02 + .01 * i) for i in range(3)]
    ln = np.log(want['A_s'])

    def derivatives(*a):
        return [ln] + d
    mi = p.mod('primpy.inflation')
    state = {}
    ctx = library(p, 'spline_derivatives', derivatives) if p.mode == 'sym' else \
        library(p, 'InterpolatedUnivariateSpline', spline_class(derivatives), mi)
    with ctx, collaborators(p, m, lambda *a, **k: B.sol):
        out, exc = p.outcome(lambda: o.calculate(state, **want))
    if out != 'ok':
        p.true('kind of refusal', exc in ('PrimpyError', 'InsufficientInflationError', 'ValueError'))
        return
    s = B.sol
    d = state['derived']
    p.eq('derived', sorted(d), sorted(o.get_can_provide_params()))
    p.eq('amplitude', d['A_s'], want['A_s'])
    for k in ('N_star', 'rho_reh_GeV', 'w_reh'):
        if k in given:
            p.eq(k, d[k], want[k])
    for i, k in enumerate(('k1', 'k2')):
        for q in 'st':
            t = {'s': 'scalar', 't': 'tensor'}[q]
            p.eq('P_%s %s' % (q, k), state['primordial_%s_pk' % t]['Pk'][i], s['P_%s_approx' % q](o.ks)[i])


def potential(p, cls):
    """The potential is the one of the component, with the requested parameters."""
    name = cls.replace('SlowRollPPS', 'Potential')
    par = {}
    for k, v in potentials_table()[name]['par'].items():
        par[k] = p.pos('par_' + k, sample=v, **bounds(k))
    m, o = component(p, cls)
    supported = set(o.get_can_support_params())
    p.true('parameters supported', set(par) | {'A_s', 'n_s', 'N_star', 'rho_reh_GeV', 'w_reh'} <= supported)
    Pot = getattr(p.mod('primpy.potentials'), name)
    p.eq('potential', o.Pot.__name__, name)
    got = {}

    class Probe(Pot):
        def sr_N2phi(self, N):
            got['N'] = N
            return p.pos('phi_i', sample=5.)

        def sr_As2Lambda(self, A_s, phi_star, N_star, **kw):
            p.eq('amplitude asked for', A_s, want['A_s'])
            p.true('position asked for', phi_star is None and N_star is not None)
            self.check('estimate')
            return p.pos('Lambda', sample=.005), p.pos('phi_star', sample=3.), N_star

        def check(self, tag):
            for k in par:
                p.eq('%s %s' % (tag, k), getattr(self, k), par[k])
    o.Pot = Probe
    want = dict(A_s=p.pos('A_s', sample=2e-9), N_star=p.pos('N_star', sample=55.), **par)
    o.ks = vec(p, [p.pos('k1', sample=.003), p.pos('k2', sample=1.7)])
    seen = []

    class Stop(Exception):
        pass

    def solve(ic, *a, **k):
        seen.append((ic, k))
        raise Stop
    old = m.solve
    m.solve = solve
    try:
        out = p.outcome(lambda: o.calculate({}, **want))
    finally:
        m.solve = old
    p.eq('reached the integration', out, ('raise', 'Stop'))
    if out[1] != 'Stop':
        return
    ic, k = seen[0]
    pot = ic.equations.potential
    pot.check('solved')
    p.eq('Lambda', pot.Lambda, p.pos('Lambda', sample=.005))
    p.eq('flat', ic.equations.K, 0)
    p.true('enough e-folds', got.get('N', 0) >= 75)
    if 'phi0' not in par:
        p.eq('starts there', ic.phi_i, p.pos('phi_i', sample=5.))
    ends = [e for e in k.get('events', ()) if isinstance(e, p.mod('primpy.events').InflationEvent)
            and e.direction < 0 and e.equations is ic.equations]
    p.true('the end of inflation is recorded', len(ends) == 1 and ends[0].name.startswith('Inflation_dir-1_'))
    p.true('integration tolerances', k.get('rtol', 1e-10) <= 1e-5 and k.get('atol', 1e-12) <= 1e-10)


def bounds(k):
    return dict(lo=2) if k == 'p' else {}


def subsets():
    return [c for n in range(5) for c in itertools.combinations(('N_star', 'n_s', 'rho_reh_GeV', 'w_reh'), n)]


CLASSES = ['MonomialSlowRollPPS', 'LinearSlowRollPPS', 'QuadraticSlowRollPPS', 'StarobinskySlowRollPPS', 'NaturalSlowRollPPS',
           'DoubleWell2SlowRollPPS', 'DoubleWell4SlowRollPPS', 'TmodelSlowRollPPS', 'RadionGaugeSlowRollPPS',
           'RadionGauge2SlowRollPPS']


def jobs(tier):
    out = [Job('request [%s]' % ' '.join(g), request, dict(given=g), max_decisions=400) for g in subsets()]
    out += [Job('scaling [%s]' % ' '.join(g), request, dict(given=g, scale=True), max_decisions=400, max_paths=300)
            for g in (subsets() if tier == 'thorough' else
                      [(), ('N_star',), ('N_star', 'rho_reh_GeV'), ('rho_reh_GeV', 'w_reh'), ('n_s',)])]
    out += [Job('shooting ' + side, shooting, dict(side=side), max_decisions=400, max_paths=100)
            for side in ('above', 'below', 'alternating')]
    out += [Job('calibrated [%s]' % ' '.join(g), calibrated, dict(given=g), max_decisions=400, max_paths=400)
            for g in (('N_star',), ('N_star', 'rho_reh_GeV')) + ((('rho_reh_GeV', 'w_reh'), ()) if tier == 'thorough' else ())]
    out.append(Job('failed integration', failed))
    out += [Job(c, potential, dict(cls=c)) for c in CLASSES]
    return out
