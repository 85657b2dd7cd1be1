"""C16: vacuum initial conditions."""
import numpy as np
import sympy as sp
from symex.engine import Job
from symex.sym import Sym, to_expr
from .common import TRUSTED
from .background import VS, ddt, mode_background, modes, parts

PRELOAD = ('primpy.time.perturbations', 'primpy.efolds.perturbations')
EXPLANATION = ('The initial conditions of every vacuum are executed on a background of arbitrary states; the solver '
               'decides the canonical commutation relation, the modulus and the logarithmic derivative against exact '
               'derivatives of z = a dphi/H along the background flow.')
BOUNDS = ('every background state (positive scale factor and Hubble rate, nonzero velocity, arbitrary potential '
          'jet), every k > 0, curvature -1, 0, 1, both time variables, vacua k, HD, RST; for HD the effective squared '
          'frequency is positive')
ASSUMPTIONS = list(TRUSTED) + ['the overall phase of a mode is unobservable and not decided']
_Z = {}


def zjet(p, s):
    """z, dz/dt, d2z/dt2 of z = a dphi/H along the exact background flow."""
    K = s.K
    if K not in _Z:
        z0 = VS[0] * VS[3] / VS[1]
        z1 = sp.expand(ddt(z0, K, VS))
        z2 = sp.expand(ddt(z1, K, VS))
        _Z[K] = [(e, sp.lambdify(VS, e, 'math')) for e in (z0, z1, z2)]
    v = (s.a, s.H, s.phi, s.dphi, s.V1, s.V2, s.V3, s.V4)
    if p.mode == 'real':
        return [f(*v) for e, f in _Z[K]]
    sub = dict(zip(VS, [to_expr(x) for x in v]))
    return [Sym(e.subs(sub, simultaneous=True)) for e, f in _Z[K]]


def vacuum(p, K, which, kind, vac, beg):
    p.strict = True
    b = mode_background(p, K, which, 3)
    k = p.pos('k', sample=17.9)
    s = b.states[beg]
    nu = k**2 + k * K * (K + 1)
    kap = nu - 3 * K
    if kind == 's' and K:
        for t in b.states:
            p.assume(kap + K * t.dphi**2 / (2 * t.H**2) != 0)
    # the frequencies of the mode equation are decided by C15: keep them on one branch
    m = _mode(p, which, kind, b, k, beg)
    if kind == 's':
        z, z1, z2 = zjet(p, s)
        norm = 1
    else:
        Hd = K / s.a**2 - s.dphi**2 / 2
        z, z1, z2 = s.a / 2, s.a * s.H / 2, s.a * (Hd + s.H**2) / 2
        norm = 1
    w2 = k**2
    if vac == 'HD':
        w2 = k**2 - s.a**2 * (z2 / z + s.H * z1 / z)
        p.assume(w2 > 0)
    R, dR = getattr(m, 'get_vacuum_ic_%s' % vac)()
    Rr, Ri = parts(p, R)
    Dr, Di = parts(p, dR)
    if which != 't':
        Dr, Di = Dr * s.H, Di * s.H
    # canonical commutation relation
    p.eq('commutator', 2 * (Ri * Dr - Rr * Di) * s.a * z**2, norm)
    # modulus: |z R|^2 = 1 / (2 w)
    n2 = (Rr**2 + Ri**2) * z**2
    p.eq('modulus', n2**2 * 4 * w2, 1)
    # logarithmic derivative: (zR)' = -i w zR in conformal time; for RST of R itself
    friction = 0 if vac == 'RST' else z1 / z
    # dR = (-i w/a - friction) R, with w eliminated through |zR|^2
    w = 1 / (2 * n2)
    p.eq('derivative, real part', Dr, w / s.a * Ri - friction * Rr)
    p.eq('derivative, imaginary part', Di, -w / s.a * Rr - friction * Ri)


def _mode(p, which, kind, b, k, beg):
    """The mode object; its frequencies are not needed here (one-point range)."""
    mk = modes(p, which)
    return mk(kind, background=b, k=k, idx_beg=beg, idx_end=beg)


def jobs(tier):
    out = []
    for w in ('t', 'N'):
        for K in (0, 1, -1):
            for kind in 'st':
                for vac in ('k', 'HD', 'RST'):
                    for beg in ((1,) if tier == 'quick' else (0, 1, 2)):
                        out.append(Job('%s K=%d %s %s%s' % (w, K, kind, vac, ' at %d' % beg), vacuum,
                                       dict(K=K, which=w, kind=kind, vac=vac, beg=beg)))
    return out
