"""C22: power-law and feature spectra handed to the sampler."""
import numpy as np
import sympy as sp
from symex.engine import Job
from .common import TRUSTED
from .background import vec

PRELOAD = ('cobaya_wrapper.powerlaw_pps', 'cobaya_wrapper.feature_pps')
EXPLANATION = ('The sampler components are executed with symbolic wavenumbers and parameters for every combination of '
               'given and missing parameters; the solver decides equality with the documented parametrisation, '
               'the consistency relations and the refusals.')
BOUNDS = ('every wavenumber > 0 (two per call), every amplitude > 0, all real tilts and runnings, tensor-to-scalar '
          'ratio >= 0, all feature parameters; all combinations of given and missing optional parameters; a '
          'given tensor amplitude is positive')
ASSUMPTIONS = list(TRUSTED) + ['the components are created without the surrounding cobaya model (its base class only '
                               'stores options)']

CLASSES = {'PowerLawPPS': 'powerlaw_pps', 'LogOscillationPPS': 'feature_pps',
           'LinOscillationPPS': 'feature_pps', 'CutoffPPS': 'feature_pps'}
COMMON = ['A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'n_t_run', 'r']
FEATURE = {'PowerLawPPS': {}, 'LogOscillationPPS': dict(A_log=.1, w_log=3.2, p_log=.3),
           'LinOscillationPPS': dict(A_lin=.1, w_lin=3.2, p_lin=.3),
           'CutoffPPS': dict(k_cut=.01, s_cut=1.7)}


def component(p, cls):
    m = p.mod('cobaya_wrapper.' + CLASSES[cls])
    c = getattr(m, cls)
    o = c.__new__(c)
    o.mpi_info = lambda *a, **k: None
    o.initialize()
    return o


def grid(p, cls):
    """The wavenumber grid is the declared one and regular in log k."""
    o = component(p, cls)
    L = np.log if p.mode == 'real' else (lambda v: p.fn(sp.log, v))
    p.eq('pivot', o.k_pivot, p.mod('primpy.parameters').K_STAR)
    p.eq('pivot value', o.k_pivot, p.S(5) / 100)
    p.true('range', o.kmin < o.kmax)
    n = len(o.ks)
    p.true('enough points', n > 100)
    p.eq('first', o.ks[0], o.kmin)
    p.eq('last', o.ks[-1], o.kmax)
    if p.mode == 'sym':
        t = p.S(o.ks.t)
        el = p.S(o.ks.e)
    else:
        j = 217
        t = j / (n - 1)
        el = o.ks[j]
    p.eq('regular', L(el), L(o.kmin) * (1 - t) + L(o.kmax) * t, novalidate=True)
    p.true('tag', o.get_can_support_params() is not None
           and sorted(o.get_can_support_params()) == sorted(COMMON + list(FEATURE[cls])))


def spectra(p, cls, tens, feat, run):
    """P(k) for one combination of given and missing parameters."""
    E = np.exp if p.mode == 'real' else (lambda v: p.fn(sp.exp, v))
    L = np.log if p.mode == 'real' else (lambda v: p.fn(sp.log, v))
    C = np.cos if p.mode == 'real' else (lambda v: p.fn(sp.cos, v))
    pi = np.pi if p.mode == 'real' else p.S(sp.pi)
    o = component(p, cls)
    ks = [p.pos('k1', sample=.003), p.pos('k2', sample=1.7)]
    o.ks = vec(p, ks)
    par = dict(A_s=p.pos('A_s', sample=2.1e-1))
    n_s, n_run, n_runrun = 1, 0, 0
    if run:
        n_s = par['n_s'] = p.real('n_s', sample=.96)
        n_run = par['n_run'] = p.real('n_run', sample=.02)
        n_runrun = par['n_runrun'] = p.real('n_runrun', sample=-.03)
    contradiction = False
    A_t, r, n_t, n_t_run = 0, 0, None, 0
    if 'A' in tens:
        A_t = par['A_t'] = p.pos('A_t', sample=3.3e-2)
        r = A_t / par['A_s']
    if 'r' in tens:
        r = par['r'] = p.var('r', lo=0, loopen=False, sample=.12)
        if 'A' not in tens:
            A_t = r * par['A_s']
        else:
            p.assume(r != A_t / par['A_s'])
            contradiction = True
    if '=' in tens:
        par['r'] = r
    if 'n' in tens:
        n_t = par['n_t'] = p.real('n_t', sample=-.07)
    if 'u' in tens:
        n_t_run = par['n_t_run'] = p.real('n_t_run', sample=.013)
        p.assume(n_t_run != 0)
        contradiction = contradiction or 'n' not in tens
    f = {}
    defaults = dict(A_log=0, w_log=0, p_log=0, A_lin=0, w_lin=0, p_lin=0, k_cut=p.S(1) / 1000, s_cut=2)
    for name, s in FEATURE[cls].items():
        f[name] = defaults[name]
        if name in feat:
            f[name] = par[name] = (p.pos if name in ('k_cut', 's_cut') else p.real)(name, sample=s)
    state = {}
    got, _ = p.outcome(lambda: o.calculate(state, **par))
    if contradiction:
        p.eq('refused', got, 'raise')
        p.true('no spectrum', not state)
        return
    p.eq('accepted', got, 'ok')
    if got != 'ok':
        return
    if n_t is None:
        n_t = -r / 8 * (2 - n_s - r / 8)
        n_t_run = r / 8 * (r / 8 + n_s - 1)
    o._current_state = state
    for typ, get in (('scalar', o.get_primordial_scalar_pk), ('tensor', o.get_primordial_tensor_pk)):
        d = get()
        p.true('%s source' % typ, d is state['primordial_%s_pk' % typ])
        p.eq('%s kmin' % typ, d['kmin'], o.kmin)
        p.eq('%s kmax' % typ, d['kmax'], o.kmax)
        p.true('%s spacing' % typ, d['log_regular'] is True)
        p.eq('%s size' % typ, len(d['Pk']), 2)
        for i, k in enumerate(ks):
            x = L(k / (p.S(5) / 100))
            fac = 1
            if cls == 'LogOscillationPPS':
                fac = 1 + f['A_log'] * C(f['w_log'] * x + 2 * pi * f['p_log'])
            elif cls == 'LinOscillationPPS':
                fac = 1 + f['A_lin'] * C(f['w_lin'] * k / (p.S(5) / 100) + 2 * pi * f['p_lin'])
            elif cls == 'CutoffPPS':
                fac = 1 - E(-(k / f['k_cut'])**f['s_cut'])
            if typ == 'scalar':
                P = par['A_s'] * E((n_s - 1) * x + n_run * x**2 / 2 + n_runrun * x**3 / 6)
            else:
                P = A_t * E(n_t * x + n_t_run * x**2 / 2)
            p.eq('%s P%d' % (typ, i), d['Pk'][i], P * fac)


TENSORS = [a + b + c for a in ('', 'A', 'r', 'Ar', 'A=') for b in ('', 'n') for c in ('', 'u')]


def jobs(tier):
    out = []
    for cls in CLASSES:
        out.append(Job('%s grid' % cls, grid, dict(cls=cls)))
        fs = list(FEATURE[cls])
        combos = [()]
        for f in fs:
            combos = combos + [c + (f,) for c in combos]
        for t in TENSORS:
            for run in (True, False):
                if not run and tier == 'quick' and t not in ('', 'r', 'A'):
                    continue
                for c in combos:
                    if tier == 'quick' and c != tuple(fs) and t not in ('', 'rn'):
                        continue
                    out.append(Job('%s [%s] [%s]%s' % (cls, t, ' '.join(c), '' if run else ' no tilt'), spectra,
                                   dict(cls=cls, tens=t, feat=c, run=run)))
    return out
