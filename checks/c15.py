"""C15: frequency and damping of the mode equations."""
import numpy as np
import sympy as sp
from symex.engine import Job
from symex.sym import Sym, to_expr
from .common import TRUSTED
from .background import VS, ddt, mode_background, modes, parts

PRELOAD = ('primpy.time.perturbations', 'primpy.efolds.perturbations')
EXPLANATION = ('The mode classes are constructed over a background of arbitrary states; the oracle for scalars is the '
               'linearised Einstein equations (Bardeen potential and its second-order equation in a universe of any '
               'curvature), for tensors the wave equation of the transverse traceless metric; the solver decides that '
               'every solution of those solves the equation with the frequency and damping the code reports.')
BOUNDS = ('backgrounds of 4 arbitrary states (positive scale factor and Hubble rate, nonzero velocity), every '
          'wavenumber k > 0 with non-vanishing denominators, curvature -1, 0, 1, both time variables, all index ranges '
          'inside the 4 states; either sign of the squared frequency; 0 to 4 evaluation points')
ASSUMPTIONS = list(TRUSTED) + ['the solver placeholders of the mode objects are replaced by empty objects']

F, G, KK = sp.symbols('j_F j_G j_k')
_R = {}


def bardeen(K):
    """R, dR/dt, d2R/dt2 in terms of the Bardeen potential F and its rate G (first principles)."""
    if K not in _R:
        a, H, f, u = VS[:4]
        nu2 = KK**2 + KK * K * (K + 1)
        Hd = K / a**2 - u**2 / 2
        ud = -3 * H * u - VS[4]
        Fdd = -(H - 2 * ud / u) * G - (nu2 / a**2 + 2 * (Hd - H * ud / u - 2 * K / a**2)) * F

        def D(e):
            return ddt(e, K, VS) + sp.diff(e, F) * G + sp.diff(e, G) * Fdd
        R0 = F + 2 * H * (G + H * F) / u**2
        R1 = sp.expand(D(R0))
        R2 = sp.expand(D(R1))
        arg = VS + (F, G, KK)
        _R[K] = [(e, sp.lambdify(arg, e, 'math')) for e in (R0, R1, R2)]
    return _R[K]


def curvature_jet(p, s, k, F_, G_):
    v = (s.a, s.H, s.phi, s.dphi, s.V1, s.V2, s.V3, s.V4, F_, G_, k)
    if p.mode == 'real':
        return [f(*v) for e, f in bardeen(s.K)]
    sub = dict(zip(VS + (F, G, KK), [to_expr(x) for x in v]))
    return [Sym(e.subs(sub, simultaneous=True)) for e, f in bardeen(s.K)]


def squared(p, tag, w):
    """The squared frequency behind a reported frequency, with the principal root checked."""
    re, im = parts(p, w)
    p.true('%s principal root' % tag, (re >= 0) & (im >= 0) if p.mode == 'sym' else re >= 0 and im >= 0)
    p.eq('%s real or imaginary' % tag, re * im, 0 * (re + im))
    return re**2 - im**2


def scalar(p, K, which, beg, end):
    p.strict = True
    b = mode_background(p, K, which, 4)
    k = p.pos('k', sample=1.9)
    F_, G_ = p.real('Phi', sample=0.7), p.real('dPhi', sample=-0.4)
    kap = k**2 + k * K * (K + 1) - 3 * K
    for s in b.states[beg:end + 1]:
        p.assume(kap + K * s.dphi**2 / (2 * s.H**2) != 0)
    m = modes(p, which)('s', background=b, k=k, idx_beg=beg, idx_end=end)
    w, g = m.ms_frequency, m.ms_damping
    p.eq('size of frequency', len(w), end + 1 - beg)
    p.eq('size of damping', len(g), end + 1 - beg)
    for i, s in enumerate(b.states[beg:end + 1]):
        f2 = squared(p, 'w%d' % i, w[i])
        R0, R1, R2 = curvature_jet(p, s, k, F_, G_)
        if which == 't':
            p.eq('mode equation %d' % i, R2, -2 * g[i] * R1 - f2 * R0)
        else:
            Hd = K / s.a**2 - s.dphi**2 / 2
            RN = R1 / s.H
            p.eq('mode equation %d' % i, (R2 - Hd * RN) / s.H**2, -2 * g[i] * RN - f2 * R0)
        if K == 0:
            # Mukhanov-Sasaki: 2 gamma = H + 2 dz/z, w = k/a
            pdd = -3 * s.H * s.dphi - s.V1
            zz = s.H + pdd / s.dphi + s.dphi**2 / (2 * s.H)
            f, d = k**2 / s.a**2, s.H + 2 * zz
            if which != 't':
                f, d = f / s.H**2, d / s.H - s.dphi**2 / (2 * s.H**2)
            p.eq('flat frequency %d' % i, f2, f)
            p.eq('flat damping %d' % i, 2 * g[i], d)


def tensor(p, K, which, beg, end):
    p.strict = True
    b = mode_background(p, K, which, 4)
    k = p.pos('k', sample=1.9)
    m = modes(p, which)('t', background=b, k=k, idx_beg=beg, idx_end=end)
    w, g = m.ms_frequency, m.ms_damping
    p.eq('size of frequency', len(w), end + 1 - beg)
    p.eq('size of damping', len(g), end + 1 - beg)
    for i, s in enumerate(b.states[beg:end + 1]):
        f2 = squared(p, 'w%d' % i, w[i])
        f, d = (k**2 + k * K * (K + 1) + 2 * K) / s.a**2, 3 * s.H
        if which != 't':
            f, d = f / s.H**2, d / s.H + (K / s.a**2 - s.dphi**2 / 2) / s.H**2
        p.eq('frequency %d' % i, f2, f)
        p.eq('damping %d' % i, 2 * g[i], d)


def one_wave(p, K, which, kind):
    """A perturbation bundles the scalar and tensor mode of the same wavenumber and range."""
    b = mode_background(p, K, which, 4)
    k = p.pos('k', sample=1.9)
    mk = modes(p, which)
    kap = k**2 + k * K * (K + 1) - 3 * K
    for s in b.states:
        p.assume(kap + K * s.dphi**2 / (2 * s.H**2) != 0)
    if K:           # positive squared frequencies: the sign is decided by the single-mode harnesses
        p.assume(k > 10)
    beg, end = 1, 1
    P = mk('p', background=b, k=k, idx_beg=beg, idx_end=end, vacuum=('k', 'HD', 'RST'))
    for tag, mode in (('s', P.scalar), ('t', P.tensor)):
        ref = mk(tag, background=b, k=k, idx_beg=beg, idx_end=end)
        for i in range(1):
            p.eq('%s frequency' % tag, parts(p, mode.ms_frequency[i])[0], parts(p, ref.ms_frequency[i])[0])
            p.eq('%s damping' % tag, mode.ms_damping[i], ref.ms_damping[i])
        p.eq('%s tag' % tag, mode.tag, tag)
        p.eq('%s k' % tag, mode.k, k)
        p.eq('%s range' % tag, [mode.idx_beg, mode.idx_end], [beg, end])
        p.eq('%s independent variable' % tag, mode.independent_variable, b.independent_variable)
        p.eq('%s places' % tag, [mode.idx[mode.var], mode.idx['d' + mode.var]], [0, 1])
    p.true('variables', (P.scalar.var, P.tensor.var) == ('Rk', 'hk'))


def points(p, which, kind, num):
    """Evaluation points run over exactly the integrated range."""
    b = mode_background(p, 0, which, 4)
    k = p.pos('k', sample=1.9)
    beg, end = 1, 2
    m = modes(p, which)(kind, background=b, k=k, idx_beg=beg, idx_end=end, num_eval=num)
    p.assume(b.t[1] < b.t[2])
    if num == 0:
        p.true('no points', m.x_eval is None)
        return
    p.eq('number of points', len(m.x_eval), num)
    for j in range(num):
        f = p.S(j) / (num - 1) if num > 1 else 0
        if which == 't':
            L = np.log if p.mode == 'real' else (lambda v: p.fn(sp.log, v))
            p.eq('point %d' % j, L(m.x_eval[j]), (1 - f) * L(b.t[1]) + f * L(b.t[2]))
            p.eq('attribute %d' % j, L(m.t_eval[j]), L(m.x_eval[j]))
        else:
            p.eq('point %d' % j, m.x_eval[j], (1 - f) * b._N[1] + f * b._N[2])
            p.eq('attribute %d' % j, m._N_eval[j], m.x_eval[j])
            p.eq('relative %d' % j, m.N_eval[j], (1 - f) * b.N[1] + f * b.N[2])


def default_range(p, which, kind):
    """Without index bounds the whole background is used."""
    b = mode_background(p, 0, which, 2)
    k = p.pos('k', sample=1.9)
    m = modes(p, which)(kind, background=b, k=k)
    p.eq('size', len(m.ms_frequency), 2)
    p.eq('damping size', len(m.ms_damping), 2)
    p.eq('begin', m.idx_beg, 0)


def jobs(tier):
    out = []
    ranges = [(1, 2)] if tier == 'quick' else [(1, 2), (0, 1), (2, 2), (0, 2)]
    for w in ('t', 'N'):
        for K in (0, 1, -1):
            for beg, end in ranges:
                out.append(Job('%s K=%d scalar %d:%d' % (w, K, beg, end), scalar,
                               dict(K=K, which=w, beg=beg, end=end)))
                out.append(Job('%s K=%d tensor %d:%d' % (w, K, beg, end), tensor,
                               dict(K=K, which=w, beg=beg, end=end)))
            out.append(Job('%s K=%d pair' % (w, K), one_wave, dict(K=K, which=w, kind='p')))
        for kind in 'st':
            out.append(Job('%s %s default' % (w, kind), default_range, dict(which=w, kind=kind)))
            for num in (0, 1, 2, 4):
                out.append(Job('%s %s points %d' % (w, kind, num), points, dict(which=w, kind=kind, num=num)))
    return out
