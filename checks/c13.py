"""C13: the standard Big Bang expansion history."""
import numpy as np
import sympy as sp
from symex.engine import Job
from .background import vec
from .common import TRUSTED, library

PRELOAD = ('primpy.units', 'primpy.parameters', 'primpy.bigbang')
EXPLANATION = ('The functions of bigbang.py are executed with symbolic densities, Hubble parameter and e-folds and symbolic '
               'measured constants. z3 decides that the Hubble rate is the closed sum of the density contributions, that all '
               'unit systems agree, that scale factor, comoving Hubble horizon and conformal time follow from it, and that a '
               'universe is refused (no Big Bang) or flagged (recollapse) exactly on its side of the dividing line. The '
               'dividing lines are parametrised by the position of the double root of the Friedmann equation, so that the '
               'closed forms with trigonometric and hyperbolic functions become algebraic statements about all matter densities.')
BOUNDS = ('all matter densities, curvature densities of either sign and zero, h, e-folds and unit systems; e-folds as scalars and arrays of '
          'length 2; the integral of the conformal time is the exact integral (scipy quad contract)')
ASSUMPTIONS = list(TRUSTED) + ['scipy quad returns the integral of the function it is given']


def consts(p):
    return p.mod('primpy.units'), (p.S(sp.pi) if p.mode == 'sym' else np.pi)


def curv(p):
    s = p.choice('curvature', [0, 1, -1])
    return 0 if s == 0 else s * p.pos('Omega_K', sample=.03)


def scale(p):
    b = p.mod('primpy.bigbang')
    u, pi = consts(p)
    h = p.pos('h', sample=.7)
    ln = np.log
    one = p.S(1) if p.mode == 'sym' else 1.

    def eq(name, x, y):
        p.eq(name, ln(one * x), ln(one * y), scale=1.)
    kms = 1000 / u.Mpc_m
    eq('H0 in km/s/Mpc', b.get_H0(h, units='H0'), 100 * h)
    eq('H0 in 1/s', b.get_H0(h, units='SI'), 100 * h * kms)
    eq('H0 in Planck units', b.get_H0(h), 100 * h * kms * u.tp_s)
    eq('H0 default units', b.get_H0(h), b.get_H0(h, units='planck'))
    O = curv(p)
    if isinstance(O, int):
        for w in 'planck', 'Mpc', 'SI':
            p.eq('flat a0 ' + w, b.get_a0(h, O, units=w), 1)
        eq('N_BBN', np.exp(b.get_N_BBN(h, O)) * (1 + p.mod('primpy.parameters').z_BBN), 1)
    else:
        a0 = b.get_a0(h, O)
        # |Omega_K0| = 1/(a0 H0)^2
        eq('a0', (a0 * b.get_H0(h))**2, 1 / abs(O))
        eq('a0 default units', a0, b.get_a0(h, O, units='planck'))
        eq('a0 in Mpc', b.get_a0(h, O, units='Mpc') * u.Mpc_m, a0 * u.lp_m)
        eq('a0 in m', b.get_a0(h, O, units='SI'), a0 * u.lp_m)
        p.raises('a0 in unknown units', NotImplementedError, lambda: b.get_a0(h, O, units='H0'))
        eq('N_BBN', np.exp(b.get_N_BBN(h, O)) * (1 + p.mod('primpy.parameters').z_BBN), a0)
    p.raises('H0 in unknown units', NotImplementedError, lambda: b.get_H0(h, units='Mpc'))


def quiet(p, f):
    """Outcome of a call and whether it warned about recollapse."""
    import warnings
    p.warnings.clear()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = p.outcome(f)
    names = [x[0].__name__ for x in p.warnings] + [x.category.__name__ for x in w]
    return out, 'BigBangWarning' in names


def universe(p, matter=True):
    b = p.mod('primpy.bigbang')
    h = p.pos('h', sample=.7)
    Om = p.pos('Omega_m', sample=.3)
    O = curv(p)
    Or = b.get_Omega_r0(h)
    return b, h, Om, O, Or, 1 - Or - Om - O


def E2(p, Om, O, Or, OL, x):
    """(H/H0)^2 as a function of x = a0/a"""
    return Or * x**4 + Om * x**3 + O * x**2 + OL


def hubble(p, array):
    b, h, Om, O, Or, OL = universe(p)
    u, pi = consts(p)
    # the dividing lines are decided elsewhere
    saved = b.no_Big_Bang_line, b.expand_recollapse_line
    b.no_Big_Bang_line = b.expand_recollapse_line = lambda Omega_m0: OL
    try:
        ns = [p.real('n%d' % i, sample=-7. - i) for i in range(2 if array else 1)]
        a0 = b.get_a0(h, O)
        lna0 = np.log(p.S(a0)) if p.mode == 'sym' else np.log(a0)
        xs = [np.exp(-n) for n in ns]                     # a0/a
        E = [E2(p, Om, O, Or, OL, x) for x in xs]
        for e in E:
            p.assume(e > 0)
        N = [lna0 + n for n in ns]
        arg = vec(p, N) if array else N[0]
        kw = dict(Omega_m0=Om, Omega_K0=O, h=h)

        def each(v):
            return [v[i] for i in range(len(ns))] if array else [v]
        for w in 'planck', 'H0', 'SI':
            for i, H in enumerate(each(b.Hubble_parameter(arg, units=w, **kw))):
                p.eq('Friedmann %s %d' % (w, i), H**2 / b.get_H0(h, units=w)**2, E[i], scale=1.)
                p.true('expanding %s %d' % (w, i), H > 0)
        d = each(b.Hubble_parameter(arg, **kw))
        H = each(b.Hubble_parameter(arg, units='planck', **kw))
        for i in range(len(ns)):
            p.eq('default units %d' % i, d[i], H[i])
        cH = {w: each(b.comoving_Hubble_horizon(arg, units=w, **kw)) for w in ('planck', 'Mpc', 'SI')}
        cd = each(b.comoving_Hubble_horizon(arg, **kw))
        for i in range(len(ns)):
            # (a0/a)/H
            p.eq('horizon %d' % i, cH['planck'][i] * H[i] / xs[i], 1)
            p.eq('horizon default units %d' % i, cd[i], cH['planck'][i])
            p.eq('horizon in m %d' % i, cH['SI'][i] / (cH['planck'][i] * u.lp_m), 1)
            p.eq('horizon in Mpc %d' % i, cH['Mpc'][i] * u.Mpc_m / (cH['planck'][i] * u.lp_m), 1)
        # today
        p.eq('today', b.Hubble_parameter(lna0, **kw), b.get_H0(h))
        p.raises('unknown units', NotImplementedError, lambda: b.Hubble_parameter(arg, units='Mpc', **kw))
        p.raises('horizon in unknown units', NotImplementedError,
                 lambda: b.comoving_Hubble_horizon(arg, units='spam', **kw))
    finally:
        b.no_Big_Bang_line, b.expand_recollapse_line = saved


def matter(p, kind):
    """(matter density, dividing line) for the double root of the Friedmann equation at x = a0/a.

    Without radiation E^2(x) = Om x^3 + Ok x^2 + OL with Om + Ok + OL = 1 has a double root at x
    when Ok = -3/2 Om x and OL = Om x^3 / 2.
    """
    if kind == 'bounce':         # in the past
        c = p.choice('branch', ['small', 'large'])
        x = p.var('x', lo=2, sample=2.7) if c == 'small' else p.var('x', lo=1, hi=2, hiopen=False, sample=1.6)
    else:                        # in the future
        x = p.var('x', lo=0, hi=1, loopen=False, sample=.4)
    Om = 2 / ((x - 1)**2 * (x + 2)) if kind == 'bounce' else None
    if kind == 'turnaround':
        p.assume(x < 1)
        Om = 2 / ((x - 1)**2 * (x + 2))
    return Om, Om * x**3 / 2


def lines(p, kind):
    b = p.mod('primpy.bigbang')
    Om, L = matter(p, kind)
    f = b.no_Big_Bang_line if kind == 'bounce' else b.expand_recollapse_line
    p.eq('dividing line', f(Om), L, scale=1.)


def limits(p):
    b = p.mod('primpy.bigbang')
    small = p.var('Om_small', lo=0, hi=1, loopen=False, sample=.3)
    p.eq('no turnaround for positive cosmological constants', b.expand_recollapse_line(small), 0, scale=1.)
    p.eq('empty universes bounce above 1', b.no_Big_Bang_line(0), 1)
    p.eq('empty universes collapse below 0', b.expand_recollapse_line(0), 0, scale=1.)
    neg = -p.pos('Om_negative', sample=.3)
    p.raises('negative matter density', ValueError, lambda: b.no_Big_Bang_line(neg))
    p.raises('negative matter density (recollapse)', ValueError, lambda: b.expand_recollapse_line(neg))


def fate(p, kind, stub=True):
    """Refusal and flagging by the Hubble rate and everything derived from it.

    The closed forms of the dividing lines are decided by lines(); with stub they stand for
    their values here.
    """
    b = p.mod('primpy.bigbang')
    h = p.pos('h', sample=.7)
    if kind == 'small':
        Om = p.var('Omega_m', lo=0, hi=1, loopen=False, sample=.3)
        L = 0 * Om
    else:
        Om, L = matter(p, kind)
    Or = b.get_Omega_r0(h)
    OL = p.real('Omega_L', sample=.4)
    O = 1 - Or - Om - OL
    p.assume(O != 0)
    if kind == 'turnaround':
        p.assume(OL < 1)
    if kind == 'small':
        p.assume(OL < 1 - Om)
    call = p.choice('call', ['Hubble_parameter', 'comoving_Hubble_horizon', 'conformal_time'])
    kw = dict(Omega_m0=Om, Omega_K0=O, h=h)
    n = np.log(b.get_a0(h, O))          # today, when every universe expands

    args = []

    def line(which):
        def f(Omega_m0):
            args.append(Omega_m0)
            if which == 'bounce':
                return L if kind == 'bounce' else 1 + Om
            return L if kind != 'bounce' else L - 1
        return f
    saved = b.no_Big_Bang_line, b.expand_recollapse_line
    if stub and p.mode == 'sym':
        b.no_Big_Bang_line, b.expand_recollapse_line = line('bounce'), line('turnaround')
    try:
        if call == 'conformal_time':
            with library(p, 'quad', lambda func, a, b, args=(), **k: (func(a, *args), 0), b):
                (out, v), warned = quiet(p, lambda: b.conformal_time(n, n + 1, **kw))
        else:
            (out, v), warned = quiet(p, lambda: getattr(b, call)(n, **kw))
    finally:
        b.no_Big_Bang_line, b.expand_recollapse_line = saved
    p.eq('matter density', sum(args) - len(args) * Om, 0, scale=1.)
    if kind == 'bounce':
        if out == 'ok':
            p.true('no bounce', OL <= L)
        else:
            p.eq('kind of refusal', v, 'BigBangError')
            p.true('bounce', OL > L)
        return
    p.eq('accepted', out, 'ok')
    p.true('flagged when recollapsing', OL < L if warned else OL >= L)


def eta(p, array):
    b, h, Om, O, Or, OL = universe(p)
    saved = b.no_Big_Bang_line, b.expand_recollapse_line
    b.no_Big_Bang_line = b.expand_recollapse_line = lambda Omega_m0: OL
    calls = []
    m = p.real('m', sample=3.)

    def quad(func, a, b, args=(), **k):
        calls.append((func(m, *args), a, b))
        return (calls[-1][2] * 3 + calls[-1][1], 1e-9)
    try:
        N0 = p.real('N_start', sample=2.)
        N = [p.real('N_%d' % i, sample=5. + i) for i in range(2 if array else 1)]
        kw = dict(Omega_m0=Om, Omega_K0=O, h=h)
        x = np.exp(np.log(b.get_a0(h, O)) - m) if not isinstance(O, int) else np.exp(-m)
        p.assume(E2(p, Om, O, Or, OL, x) > 0)
        with library(p, 'quad', quad, b):
            out, r = p.outcome(lambda: b.conformal_time(N0, vec(p, N) if array else N[0], **kw))
        if out != 'ok':
            p.eq('refused', r, 'BigBangError')
            return
        p.eq('number of integrals', len(calls), len(N))
        H = b.Hubble_parameter(m, **kw)
        for i, (f, lo, hi) in enumerate(calls):
            p.eq('integrand %d' % i, f * H * np.exp(m), 1)      # d eta = dN / (a H)
            p.eq('lower limit %d' % i, lo, N0)
            p.eq('upper limit %d' % i, hi, N[i])
            p.eq('result %d' % i, r[i] if array else r[0], 3 * N[i] + N0)
        p.eq('shape', np.shape(r), (len(N),) if array else (2,))
        p.raises('lists are refused', TypeError, lambda: b.conformal_time(N0, list(N) + [N0], **kw))
    finally:
        b.no_Big_Bang_line, b.expand_recollapse_line = saved


def ratio(p, backward):
    """Conformal time before relative to after the end of inflation, in the same units."""
    b, h, Om, O, Or, OL = universe(p)
    saved = b.no_Big_Bang_line, b.expand_recollapse_line
    b.no_Big_Bang_line = b.expand_recollapse_line = lambda Omega_m0: OL
    I = p.pos('integral', sample=2.)
    calls = []

    def quad(func, a, b, args=(), **k):
        calls.append((a, b))
        return (I, 1e-9)

    class Sol:
        pass
    f, g = Sol(), Sol()
    try:
        e = [p.real('eta%d' % i, sample=1. + i) for i in range(3)]
        f.eta, g.eta = vec(p, e[1:]), vec(p, [e[1], e[0]])
        f._N_end = p.real('N_end', sample=60.)
        f.delta_N_calib = p.real('shift', sample=-130.) if isinstance(O, int) else 0
        f.N_end = f._N_end + f.delta_N_calib
        f.a0 = 1 if isinstance(O, int) else b.get_a0(h, O)
        with library(p, 'quad', quad, b):
            r = b.conformal_time_ratio(Om, O, h, f, g if backward else None)
        lo, hi = calls[-1]
        p.eq('from the end of inflation', lo, f.N_end, scale=1.)
        p.eq('until today', hi, np.log(p.S(f.a0)) if p.mode == 'sym' else np.log(f.a0), scale=1.)
        before = e[2] - (e[0] if backward else e[1])
        p.eq('ratio', r * I, before * np.exp(-f.delta_N_calib), scale=0.)
    finally:
        b.no_Big_Bang_line, b.expand_recollapse_line = saved


def reheat(p):
    b = p.mod('primpy.bigbang')
    w = p.real('w', sample=.2)
    D = p.pos('duration', sample=4.)
    N = p.real('N_end', sample=60.)
    L = p.real('log_cHH', sample=-50.)
    # H ~ a^(-3(1+w)/2)
    got = b.get_w_delta_reh(N, N + D, L, L - D + 3 * (1 + w) / 2 * D)
    p.eq('equation of state', got[0], w, scale=1.)
    p.eq('duration', got[1], D, scale=1.)


def jobs(tier):
    out = [Job('scale factor and units', scale), Job('reheating', reheat), Job('limits of the lines', limits)]
    for k in 'bounce', 'turnaround':
        out.append(Job('line ' + k, lines, dict(kind=k)))
    for k in 'bounce', 'turnaround', 'small':
        out.append(Job('fate ' + k, fate, dict(kind=k), fallback=Job('fate ' + k, fate, dict(kind=k, stub=False))))
    for a in (False, True):
        out.append(Job('Hubble%s' % (' array' if a else ''), hubble, dict(array=a)))
        out.append(Job('conformal time%s' % (' array' if a else ''), eta, dict(array=a)))
        out.append(Job('conformal time ratio%s' % (' backward' if a else ''), ratio, dict(backward=a)))
    return out
