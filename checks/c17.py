"""C17: power spectra from numerical mode solutions."""
import contextlib
import numpy as np
import sympy as sp
from types import SimpleNamespace
from symex.engine import Job
from .common import TRUSTED, PLAIN, FEATURE, library, make_pot
from .background import mode_background, modes, parts, placeholder, vec
from .c16 import zjet

PRELOAD = ('primpy.time.perturbations', 'primpy.efolds.perturbations', 'primpy.oscode_solver', 'primpy.potentials')
EXPLANATION = ('The combination of solutions and the driver of the mode integration are executed with arbitrary '
               'backgrounds, arbitrary start values and arbitrary numerical solutions in place of those of the '
               'integrator; the solver decides that the spectra are those of the combination matching the vacuum, '
               'and that the integrator is given the right equation on the right range for every wavenumber.')
BOUNDS = ('one or two wavenumbers per call, backgrounds of 4 states (driver) whose comoving Hubble rate grows, '
          'solutions of 7 nodes that are frozen in at the end up to one arbitrary outlier in the last five (missing '
          'or any value), up to 2 evaluation points, curvature -1, 0, 1, both time variables, all three vacua')
ASSUMPTIONS = list(TRUSTED) + ['pyoscode solves the equation it is given, and starts from the values it is given']
PI2 = sp.pi**2


def sq(p, z):
    re, im = parts(p, z)
    return re**2 + im**2


def pi2(p):
    return float(np.pi**2) if p.mode == 'real' else p.S(1) * PI2


def oscillating(p, s, k, K, kind):
    """The effective squared frequency of the HD vacuum is positive."""
    if kind == 's':
        z, z1, z2 = zjet(p, s)
    else:
        Hd = K / s.a**2 - s.dphi**2 / 2
        z, z1, z2 = s.a, s.a * s.H, s.a * (Hd + s.H**2)
    p.assume(k**2 - s.a**2 * (z2 / z + s.H * z1 / z) > 0)


def solution(p, tag, n=7, outlier=None, missing=False, dense=0):
    """An arbitrary numerical solution, frozen in at the end."""
    y0, dy0 = p.real('y0' + tag, sample=1.3 if tag.endswith('1') else .4), \
        p.real('dy0' + tag, sample=.2 if tag.endswith('1') else 1.7)
    end = p.real('yend' + tag, sample=.8 if tag.endswith('1') else -1.1)
    y = [y0] + [p.real('y%d%s' % (i, tag), sample=.3 * i - 1) for i in range(1, n - 5)] + [end] * 5
    if outlier is not None:
        y[n - 5 + outlier] = float('nan') if missing else p.real('out' + tag, sample=55.)
    dy = [dy0] + [p.real('dy%d%s' % (i, tag), sample=.1 * i - .3) for i in range(1, n)]
    x = [p.real('t%d%s' % (i, tag), sample=1. + i) for i in range(n)]
    arr = (lambda v: np.array(v, dtype=complex)) if p.mode == 'real' else (lambda v: vec(p, v))
    d = dict(types=[0] + [1] * (n - 1), t=x, sol=arr(y), dsol=arr(dy))
    ev = []
    if dense:
        ev = [p.real('ye%d%s' % (i, tag), sample=.5 - i) for i in range(dense)]
        d['x_eval'] = arr(ev)
        d['dx_eval'] = arr([p.real('dye%d%s' % (i, tag), sample=.6 - i) for i in range(dense)])
    return d, SimpleNamespace(y0=y0, dy0=dy0, end=end, ev=ev, x=x, y=y, dy=dy)


def expected(p, uk, duk, s1, s2, end):
    """|u|^2 times the squared Wronskian, for the combination matching (uk, duk) at the first node."""
    ur, ui = parts(p, uk)
    vr, vi = parts(p, duk)
    W = s1.y0 * s2.dy0 - s1.dy0 * s2.y0
    out = 0
    for u, v in ((ur, vr), (ui, vi)):
        a = u * s2.dy0 - v * s2.y0          # Cramer: a y1 + b y2 = u, a dy1 + b dy2 = v
        b = v * s1.y0 - u * s1.dy0
        out = out + (a * end[0] + b * end[1])**2
    return out, W**2


def norm(p, kind, k):
    return k**3 / (2 * pi2(p)) * (2 if kind == 't' else 1)


def combine(p, K, which, vac, outlier, missing, dense, where=None):
    """Spectra are those of the combination that matches the vacuum."""
    p.strict = True
    b = mode_background(p, K, which, 2)
    k = p.pos('k', sample=17.9)
    if K:
        for t in b.states:
            p.assume(k**2 + k * K * (K + 1) - 3 * K + K * t.dphi**2 / (2 * t.H**2) != 0)
    mk = modes(p, which)
    vs = ('k', 'HD', 'RST') if vac == 'all' else (vac,)
    m = dict(num_eval=dense) if dense else {}
    if dense:
        p.assume(b.t[0] < b.t[1])
    if 'HD' in vs:
        for kind in 'st':
            oscillating(p, b.states[0], k, K, kind)
    P = mk('p', background=b, k=k, idx_beg=0, idx_end=0, vacuum=vs, **m)
    sols, refs = [], []
    for kind in 'st':
        for num in '12':
            d, r = solution(p, kind + num, outlier=outlier if where == kind + num else None, missing=missing, dense=dense)
            sols.append(d)
            refs.append(r)
        p.assume(refs[-2].y0 * refs[-1].dy0 - refs[-2].dy0 * refs[-1].y0 != 0)
    P.oscode_postprocessing(oscode_sol=sols, vacuum=vs)
    for m, (kind, mode) in enumerate((('s', P.scalar), ('t', P.tensor))):
        s1, s2 = refs[2 * m:2 * m + 2]
        for obj, r, d in ((mode.one, s1, sols[2 * m]), (mode.two, s2, sols[2 * m + 1])):
            p.eq('%s x' % kind, obj.x, vec(p, r.x))
            p.eq('%s x by name' % kind, getattr(obj, b.independent_variable), vec(p, r.x))
            for j in range(2):
                p.eq('%s value %d' % (kind, j), parts(p, getattr(obj, mode.var)[j])[0], r.y[j])
                p.eq('%s derivative %d' % (kind, j), parts(p, getattr(obj, 'd' + mode.var)[j])[0], r.dy[j])
            p.eq('%s steptypes' % kind, list(obj.steptype), d['types'])
        for v in vs:
            uk, duk = getattr(mode, 'get_vacuum_ic_%s' % v)()
            e, W2 = expected(p, uk, duk, s1, s2, (s1.end, s2.end))
            p.eq('%s spectrum %s' % (kind, v), getattr(mode, 'P_%s_%s' % (kind, v)) * W2, e * norm(p, kind, k))
            for j in range(dense):
                e, W2 = expected(p, uk, duk, s1, s2, (s1.ev[j], s2.ev[j]))
                p.eq('%s evaluated spectrum %s %d' % (kind, v, j),
                     getattr(mode, 'P_%s_%s_eval' % (kind, v))[j] * W2, e * norm(p, kind, k))


@contextlib.contextmanager
def integrator(p, fn):
    """Replace the mode integrator by its contract."""
    m = p.mod('primpy.oscode_solver')
    base = p.mod('primpy.perturbations')
    with contextlib.ExitStack() as st:
        if p.mode == 'sym':
            st.enter_context(library(p, 'pyoscode', fn))
            st.enter_context(library(p, 'solve_ivp', placeholder, base))
            yield m
        else:
            import pyoscode
            old = pyoscode.solve
            pyoscode.solve = fn
            try:
                yield m
            finally:
                pyoscode.solve = old


def arg(names, a, kw):
    d = dict(zip(names, a))
    d.update(kw)
    return d


NAMES = ('ts', 'ws', 'gs', 'ti', 'tf', 'x0', 'dx0', 't_eval', 'logw', 'logg', 'order', 'rtol', 'atol', 'h',
         'full_output', 'even_grid')


def E(p, v):
    return np.exp(v) if p.mode == 'real' else p.fn(sp.exp, v)


def L(p, v):
    return np.log(v) if p.mode == 'real' else p.fn(sp.log, v)


def growing(p, b, n):
    """Comoving Hubble rate and e-folds grow from node to node."""
    b.logaH = [s.N + L(p, s.H) for s in b.states]
    b._logaH = vec(p, b.logaH)
    b._logaH_star = p.real('logaH_star', sample=.4)
    for i in range(n - 1):
        p.assume(b.states[i].N < b.states[i + 1].N)
        p.assume(b.logaH[i] < b.logaH[i + 1])


def drive(p, which, n, fac_beg, fac_end, nk, vac, dense, opts, own_ic, apart=False):
    """Range, equation and start values of every integration, and storage of the result."""
    p.strict = True
    b = mode_background(p, 0, which, n, spread=(8., 7.1e6, 4.1e12) if apart else (2.3, 8., 7.1e3, 4.1e9)[4 - n:])
    growing(p, b, n)
    k = [p.pos('k%d' % i, sample=(43., 2e7)[i]) for i in range(nk)]
    fb = p.pos('fac_beg', sample=.7) if fac_beg else 0
    fe = p.pos('fac_end', sample=2.1) if fac_end else 100
    ic = [p.real('ic%d' % i, sample=(1.1, .2, .3, 1.4)[i]) for i in range(4)]
    b.potential.perturbation_ic = (1, 0, 0, 1)
    # the margin and ten e-folds are reached within the background
    p.assume(b.states[n - 1].N - b.states[n - 2].N > 10)
    for q in k:
        p.assume(b.logaH[n - 1] - L(p, q) > L(p, fe))
        if fac_beg:
            p.assume(L(p, q) - b.logaH[n - 1] < L(p, fb))
    if apart:           # each wavenumber leaves at its own node
        p.assume(b.states[1].N - b.states[0].N > 10)
        p.assume(b.logaH[1] - L(p, k[0]) > L(p, fe))
        p.assume(b.logaH[0] - L(p, k[0]) <= L(p, fe))
        p.assume(b.logaH[1] - L(p, k[1]) <= L(p, fe))
    for q in k:
        if 'HD' in (vac or ()):
            for kind in 'st':
                oscillating(p, b.states[0], q, 0, kind)
    calls, made = [], []

    def solve(*a, **kw):
        c = arg(NAMES, a, kw)
        d, r = solution(p, '_%d_%d' % (len(calls) // 2, len(calls) % 2 + 1), n=6, dense=dense)
        if len(calls) % 2:
            p.assume(made[-1].y0 * r.dy0 - made[-1].dy0 * r.y0 != 0)
        calls.append(c)
        made.append(r)
        return d
    kw = dict(fac_beg=fb)
    if fac_end:
        kw['fac_end'] = fe
    if opts:
        kw.update(rtol=1e-3, even_grid=True)
    if own_ic:
        kw['y0'] = tuple(ic)
    if dense:
        kw['num_eval'] = dense
    if vac:
        kw['vacuum'] = vac
    with integrator(p, solve) as m:
        out = m.solve_oscode(b, vec(p, k), **kw)
    vs = vac or ('RST',)
    p.eq('number of integrations', len(calls), 4 * nk)
    mk = modes(p, which)
    for q, kq in enumerate(k):
        sub = [bool(L(p, kq) - b.logaH[i] > L(p, fb)) for i in range(n)] if fac_beg else [False] * n
        beg = max([i for i in range(n) if sub[i]], default=0)
        end = min(i for i in range(n) if bool(b.logaH[i] - L(p, kq) > L(p, fe)))
        if bool(b.states[end].N - b.states[beg].N < 10):
            end = min(i for i in range(n) if bool(b.states[i].N - b.states[beg].N > 10))
        for m_, kind in enumerate('st'):
            ref = mk(kind, background=b, k=kq, idx_beg=beg, idx_end=end, num_eval=dense)
            for num in range(2):
                j = 4 * q + 2 * m_ + num
                c, t = calls[j], 'k%d %s %d ' % (q, kind, num)
                p.eq(t + 'times', c['ts'], vec(p, [b.x[i] for i in range(beg, end + 1)]))
                p.eq(t + 'start', c['ti'], b.x[beg])
                p.eq(t + 'stop', c['tf'], b.x[end])
                for i in range(end + 1 - beg):
                    w = E(p, c['ws'][i]) if c.get('logw') else c['ws'][i]
                    g = E(p, c['gs'][i]) if c.get('logg') else c['gs'][i]
                    p.eq(t + 'frequency %d' % i, parts(p, w)[0], parts(p, ref.ms_frequency[i])[0])
                    p.eq(t + 'damping %d' % i, g, ref.ms_damping[i])
                y0 = ic if own_ic else (1, 0, 0, 1)
                p.eq(t + 'initial values', [c['x0'], c['dx0']], list(y0[2 * num:2 * num + 2]))
                if opts:
                    p.true(t + 'options', c['rtol'] == 1e-3 and c['even_grid'] is True)
                else:
                    p.true(t + 'uneven grid', not c.get('even_grid', False))
                if dense:
                    p.eq(t + 'evaluation points', c['t_eval'], ref.x_eval)
                else:
                    p.true(t + 'no evaluation points', c.get('t_eval') is None or len(c['t_eval']) == 0)
            s1, s2 = made[4 * q + 2 * m_:4 * q + 2 * m_ + 2]
            for v in vs:
                uk, duk = getattr(ref, 'get_vacuum_ic_%s' % v)()
                e, W2 = expected(p, uk, duk, s1, s2, (s1.end, s2.end))
                p.eq('k%d %s stored %s' % (q, kind, v), getattr(out, 'P_%s_%s' % (kind, v))[q] * W2,
                     e * norm(p, kind, kq))
        p.eq('k%d' % q, out.k[q], kq)
        K_STAR = p.mod('primpy.parameters').K_STAR
        p.eq('k%d in 1/Mpc' % q, L(p, out.k_iMpc[q]), L(p, kq) + L(p, p.S(K_STAR)) - b._logaH_star)
        for v in ('k', 'HD', 'RST'):
            p.true('spectra of %s' % v, hasattr(out, 'P_s_' + v) == (v in vs) == hasattr(out, 'P_t_' + v))
    p.true('background', out.background is b)


def closed(p, which, vac, drop, small, scalar_k):
    """Closed universes: scales below the smallest mode are dropped on request only."""
    p.strict = True
    K = 1
    b = mode_background(p, K, which, 2, spread=(.05 if small else .5, 1e9))
    growing(p, b, 2)
    b.potential.perturbation_ic = (1, 0, 0, 1)
    k = p.var('k', lo=0 if small else 1, hi=1 if small else None, loopen=small, sample=.6 if small else 17.9)
    p.assume(b.states[1].N - b.states[0].N > 10)
    p.assume(b.logaH[1] - L(p, k) > L(p, p.S(100)))
    kap = k**2 + 2 * k - 3
    for s in b.states:
        p.assume(kap + s.dphi**2 / (2 * s.H**2) != 0)
    mk = modes(p, which)
    for kind in 'st':
        ref = mk(kind, background=b, k=k, idx_beg=0, idx_end=1)
        for w in ref.ms_frequency:
            p.assume(sq(p, w) > 0)
            # one sign of the squared frequency suffices here (C15 decides both)
            p.assume((parts(p, w)[0] if small and kind == 's' else parts(p, w)[1]) == 0)
        if 'HD' in vac:
            oscillating(p, b.states[0], k, K, kind)
    made = []

    def solve(*a, **kw):
        d, r = solution(p, '_%d_%d' % (len(made) // 2, len(made) % 2 + 1), n=6)
        if len(made) % 2:
            p.assume(made[-1].y0 * r.dy0 - made[-1].dy0 * r.y0 != 0)
        made.append(r)
        return d
    kw = {} if drop is None else dict(drop_closed_large_scales=drop)
    with integrator(p, solve) as m:
        out = m.solve_oscode(b, vec(p, [k]), vacuum=vac, **kw)
    for m_, kind in enumerate('st'):
        ref = mk(kind, background=b, k=k, idx_beg=0, idx_end=0)
        s1, s2 = made[2 * m_:2 * m_ + 2]
        for v in vac:
            got = getattr(out, 'P_%s_%s' % (kind, v))[0]
            if small and drop is not False:
                if kind == 's':
                    p.true('%s dropped' % v, (got >= 0) & (got <= 1e-20) if p.mode == 'sym' else 0 <= got <= 1e-20)
                continue
            uk, duk = getattr(ref, 'get_vacuum_ic_%s' % v)()
            e, W2 = expected(p, uk, duk, s1, s2, (s1.end, s2.end))
            p.eq('%s spectrum %s' % (kind, v), got * W2, e * norm(p, kind, k))


def starts(p, cls):
    """Default start values of the two solutions are independent."""
    pot, _ = make_pot(p, cls)
    y = pot.perturbation_ic
    p.eq('four values', len(y), 4)
    p.true('independent', y[0] * y[3] - y[1] * y[2] != 0)


def jobs(tier):
    out = []
    for w in ('t', 'N'):
        for K in (0, 1, -1):
            out.append(Job('%s K=%d combine' % (w, K), combine,
                           dict(K=K, which=w, vac='all' if K == 0 else 'RST', outlier=None, missing=False, dense=0)))
        for where in ('s1', 's2', 't1', 't2'):
            for o in ((0, 4) if tier == 'quick' else range(5)):
                for missing in (False, True):
                    out.append(Job('%s outlier %d %s%s' % (w, o, where, ' missing' * missing), combine,
                                   dict(K=0, which=w, vac='RST', outlier=o, missing=missing, dense=0, where=where)))
        out.append(Job('%s dense' % w, combine, dict(K=0, which=w, vac='all', outlier=None, missing=False, dense=2)))
        out.append(Job('%s drive' % w, drive, dict(which=w, n=4, fac_beg=True, fac_end=True, nk=1, vac=None, dense=0,
                                                   opts=False, own_ic=False)))
        out.append(Job('%s drive from start' % w, drive,
                       dict(which=w, n=4, fac_beg=False, fac_end=False, nk=1, vac=('k', 'HD', 'RST'), dense=0,
                            opts=True, own_ic=True)))
        out.append(Job('%s drive dense' % w, drive,
                       dict(which=w, n=3, fac_beg=False, fac_end=True, nk=1, vac=('HD',), dense=2,
                            opts=False, own_ic=False)))
        out.append(Job('%s drive two' % w, drive,
                       dict(which=w, n=3, fac_beg=False, fac_end=True, nk=2, vac=('k', 'RST'), dense=0,
                            opts=False, own_ic=False, apart=True)))
        for vac in (('RST',), ('k', 'HD', 'RST'), ('HD',)):
            for drop in (None, True, False):
                for small in (True, False):
                    if tier == 'quick' and (vac, drop, small) not in (
                            (('RST',), None, True), (('k', 'HD', 'RST'), True, True), (('HD',), None, True),
                            (('RST',), False, True), (('k', 'HD', 'RST'), None, False)):
                        continue
                    out.append(Job('%s closed %s drop=%s %s' % (w, '+'.join(vac), drop, 'k<1' if small else 'k>=1'),
                                   closed, dict(which=w, vac=vac, drop=drop, small=small, scalar_k=False)))
    for cls in PLAIN + FEATURE:
        out.append(Job('start values of %s' % cls, starts, dict(cls=cls)))
    return out
