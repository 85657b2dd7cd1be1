"""Stand-ins for the libraries the code imports: numpy (symbol-aware, delegating), scipy, warnings."""
import builtins
import math as _math
import types
import warnings as _warnings
import numpy as np
import sympy as sp
from sympy import S
from . import sym as _sym
from .sym import Sym, SymBool, Unsupported, to_expr, LW, LW0, band, bor, bnot


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(has_sym(i, depth + 1) for i in x)
    return False


def any_sym(a, k):
    return any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())


class Namespace(types.ModuleType):
    """A module stand-in: overrides first, the real module otherwise."""

    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        r = self.__dict__.get('_real')
        if r is None:
            raise AttributeError(n)
        return getattr(r, n)


def emap(f, *arrs):
    """Elementwise map over broadcast object arrays; scalars stay scalars."""
    if all(not isinstance(a, (np.ndarray, list, tuple)) for a in arrs):
        return f(*arrs)
    oa = [objarr(a) for a in arrs]
    b = np.broadcast_arrays(*oa, subok=False)
    out = np.empty(b[0].shape, dtype=object)
    for i in np.ndindex(b[0].shape):
        out[i] = f(*[x[i] for x in b])
    if out.ndim == 0:
        return out[()]
    return out


def objarr(a):
    if isinstance(a, np.ndarray):
        return a if a.dtype == object else a.astype(object)
    if isinstance(a, (list, tuple)):
        parts = [objarr(x) for x in a]
        if not parts:
            return np.empty(0, dtype=object)
        sh = parts[0].shape
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            if p.shape != sh:
                raise Unsupported('ragged array')
            out[i] = p if sh else p[()]
        return out
    out = np.empty((), dtype=object)
    out[()] = a
    return out


def boolarr(x):
    """Concretise (fork on) a mask."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            out = np.empty(x.shape, dtype=bool)
            for i in np.ndindex(x.shape):
                out[i] = bool(x[i])
            return out
        return x
    return bool(x)


def exact(x):
    """A Python number as an exact symbol (only for scalars met by elementary functions)."""
    if isinstance(x, (bool, int, float)) and not isinstance(x, np.floating):
        return Sym(to_expr(x))
    if type(x) in (np.int64, np.int32):
        return Sym(int(x))
    return x


def unary(name):
    real = getattr(np, name)
    meth = {'abs': '__abs__', 'absolute': '__abs__', 'fabs': '__abs__'}.get(name, name)

    def f(x, *a, **k):
        if k.get('out') is not None or (k.get('where', True) is not True):
            if has_sym(x):
                raise Unsupported('ufunc out/where')
            return real(x, *a, **k)
        if isinstance(x, (list, tuple)) and has_sym(x):
            x = objarr(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return emap(lambda t: getattr(exact(t) if not isinstance(t, Sym) else t, meth)(), x)
        if isinstance(x, Sym):
            return getattr(x, meth)()
        if isinstance(x, (int, float)) and not isinstance(x, (np.generic, bool)):
            if x == x and abs(x) != float('inf'):
                return getattr(exact(x), meth)()
        return real(x, *a, **k)
    f.__name__ = name
    return f


def _ob(shape, val):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = val
    return out


def zeros(shape, dtype=None, **k):
    if dtype in (bool, int, complex) or isinstance(dtype, str):
        if dtype not in (complex, 'complex', 'float', 'float64', 'complex128'):
            return np.zeros(shape, dtype=dtype)
    return _ob(shape, S_ZERO)


class _Zero:
    pass


S_ZERO = Sym(S.Zero)
S_ONE = Sym(S.One)
NAN = Sym(sp.nan)


def ones(shape, dtype=None, **k):
    if dtype in (bool, int):
        return np.ones(shape, dtype=dtype)
    return _ob(shape, S_ONE)


def full(shape, v, dtype=None, **k):
    if isinstance(v, (bool, np.bool_)) or dtype in (bool, int):
        return np.full(shape, v, dtype=dtype)
    return _ob(shape, Sym(v) if not isinstance(v, (np.ndarray, Sym)) else v)


def _shape(a):
    return np.shape(a) if not isinstance(a, Sym) else ()


def zeros_like(a, dtype=None, **k):
    return _wrap0(zeros(_shape(a), dtype))


def ones_like(a, dtype=None, **k):
    return _wrap0(ones(_shape(a), dtype))


def empty_like(a, dtype=None, **k):
    return zeros_like(a, dtype)


def full_like(a, v, dtype=None, **k):
    return _wrap0(full(_shape(a), v, dtype))


def _wrap0(a):
    return a


COMPLEX = (complex, np.complex128, 'complex', 'complex128')


def _dtype(a, k):
    return k.get('dtype', a[0] if a else None)


def to_complex(x):
    return emap(lambda t: _sym.Cx.of(t), x)


def sx_astype(x, *a, **k):
    """`x.astype(...)`: a complex type must survive on symbolic values."""
    a, k = _plain_dtype(a, k)
    if has_sym(x):
        d = _dtype(a, k)
        if any(d is c or d == c for c in COMPLEX):
            return to_complex(x)
        if d in (float, np.float64, 'float', 'float64') and isinstance(x, np.ndarray):
            return x.copy()
    return x.astype(*a, **k)


def emath_sqrt(x):
    """Square root into the complex plane where needed (real where all values are non-negative)."""
    if not has_sym(x):
        return np.emath.sqrt(x)
    if bool(np_all(x >= 0 if not isinstance(x, (list, tuple)) else objarr(x) >= 0)):
        return NP_OVER['sqrt'](x)
    return NP_OVER['sqrt'](to_complex(x))


def _plain_dtype(a, k):
    """Arguments of a numpy constructor with the types that stand in for builtins replaced."""
    a = tuple(BUILTIN.get(t, t) if isinstance(t, type) else t for t in a)
    if isinstance(k.get('dtype'), type):
        k = dict(k, dtype=BUILTIN.get(k['dtype'], k['dtype']))
    return a, k


def array(x, *a, **k):
    a, k = _plain_dtype(a, k)
    if has_sym(x):
        r = objarr(x)
        if any(_dtype(a, k) is c or _dtype(a, k) == c for c in COMPLEX):
            return objarr(to_complex(r))
        nd = k.get('ndmin', 0)
        while r.ndim < nd:
            r = r[None]
        return r.copy()
    r = np.array(x, *a, **k)
    if isinstance(x, (list, tuple)) and r.dtype == np.float64 and 0 < r.size <= 64:
        return objarr([Sym(v) for v in r.flat]).reshape(r.shape)  # may be filled with terms later on
    return r


def asarray(x, *a, **k):
    a, k = _plain_dtype(a, k)
    if has_sym(x) and any(_dtype(a, k) is c or _dtype(a, k) == c for c in COMPLEX):
        return objarr(to_complex(x))
    if isinstance(x, np.ndarray):
        return x
    if has_sym(x):
        return objarr(x)
    return np.asarray(x, *a, **k)


class Grid(Sym):
    """`linspace(lo, hi, n)` with symbolic ends and many points: one generic element.

    t in [0, 1] is a fresh real; slicing off the ends makes it (0, 1).
    """

    __slots__ = ('gid', 'n')
    ndim = 1

    def __init__(self, e, gid, n):
        super().__init__(e)
        self.gid = gid
        self.n = n

    def __len__(self):
        return self.n

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)


GRID_MIN = 65


def linspace(start, stop, num=50, endpoint=True, **k):
    if not (has_sym(start) or has_sym(stop)):
        return np.linspace(start, stop, num, endpoint=endpoint, **k)
    num = int(num)
    if num >= GRID_MIN:
        return GridArr.make(start, stop, num, lambda lo, hi, t: lo + (hi - lo) * t)
    den = (num - 1) if endpoint else num
    return objarr([Sym(to_expr(start)) + (Sym(to_expr(stop)) - start) * Sym(sp.Rational(i, den))
                   if den else Sym(to_expr(start)) for i in range(num)])


def logspace(start, stop, num=50, endpoint=True, base=10.0, **k):
    if not (has_sym(start) or has_sym(stop)):
        return np.logspace(start, stop, num, endpoint=endpoint, base=base, **k)
    num = int(num)
    if num >= GRID_MIN:
        return GridArr.make(start, stop, num,
                            lambda lo, hi, t: Sym(to_expr(base)) ** (lo + (hi - lo) * t))
    return emap(lambda t: Sym(to_expr(base))**t, linspace(start, stop, num, endpoint))


class GridArr(Sym):
    """Stands for a long array through one generic element (a real parameter t in [0,1])."""

    __slots__ = ('t', 'n')

    def __init__(self, e, t, n):
        super().__init__(e)
        self.t = t
        self.n = n

    @classmethod
    def make(cls, lo, hi, n, f):
        P = _sym.CURRENT
        if P is None:
            raise Unsupported('grid outside path')
        t = P.fresh('t_grid', real=True)
        P.assume(t >= 0)
        P.assume(t <= 1)
        return cls((f(Sym(to_expr(lo)), Sym(to_expr(hi)), t)).e, t.e, n)

    def __len__(self):
        return self.n

    def _bin(self, o, f):
        y = to_expr(o)
        if y is None:
            return NotImplemented
        if isinstance(o, GridArr) and o.t != self.t:
            raise Unsupported('two grids')
        return GridArr(f(self.e, y), self.t, self.n)

    def __getitem__(self, i):
        P = _sym.CURRENT
        if isinstance(i, slice):
            a, b, c = i.indices(self.n)
            if c not in (1, -1):
                raise Unsupported('grid stride')
            if c == 1:
                if a > 0:
                    P.assume(Sym(self.t) > 0)
                if b < self.n:
                    P.assume(Sym(self.t) < 1)
            return self
        if isinstance(i, (int, np.integer)):
            v = {0: 0, -1: 1, self.n - 1: 1}.get(int(i))
            if v is None:
                raise Unsupported('grid index')
            return Sym(self.e.subs(self.t, v))
        raise Unsupported('grid index')


for _n in ('sqrt', 'exp', 'expm1', 'log', 'log1p', 'log10', 'log2', 'sin', 'cos', 'tan', 'arcsin',
           'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'square',
           'cbrt', 'reciprocal', 'sign', '__abs__', '__neg__'):
    def _mk(n):
        base = getattr(Sym, n)

        def g(self):
            r = base(self)
            return GridArr(r.e, self.t, self.n)
        return g
    setattr(GridArr, _n, _mk(_n))


def isnan(x):
    return emap(lambda t: t.e is sp.nan if isinstance(t, Sym) else bool(np.isnan(t)), x) \
        if has_sym(x) else np.isnan(x)


def _mask(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if all(isinstance(v, (bool, np.bool_)) for v in r.flat):
            return r.astype(bool)
    return r


def isfinite(x):
    if not has_sym(x):
        return np.isfinite(x)
    return _mask(emap(lambda t: t.isfinite() if isinstance(t, Sym) else bool(np.isfinite(t)), x))


def isinf(x):
    if not has_sym(x):
        return np.isinf(x)
    return _mask(emap(lambda t: (t.e in (sp.oo, -sp.oo)) if isinstance(t, Sym)
                      else bool(np.isinf(t)), x))


def isnan2(x):
    if not has_sym(x):
        return np.isnan(x)
    return _mask(emap(lambda t: (t.e is sp.nan) if isinstance(t, Sym) else bool(np.isnan(t)), x))


def where(c, *ab):
    if not ab:
        return np.where(boolarr(c))
    a, b = ab
    if not any_sym((c, a, b), {}):
        return np.where(c, a, b)
    c = boolarr(c)
    r = emap(lambda cc, x, y: x if cc else y, c, a, b) if isinstance(c, np.ndarray) or \
        isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else (a if c else b)
    return r


def argwhere(c):
    return np.argwhere(boolarr(c))


def nonzero(c):
    return np.nonzero(boolarr(c))


def flatnonzero(c):
    return np.flatnonzero(boolarr(c))


def np_all(x, *a, **k):
    if has_sym(x):
        x = boolarr(objarr(x) if isinstance(x, (list, tuple)) else x)
    return np.all(x, *a, **k)


def np_any(x, *a, **k):
    if has_sym(x):
        x = boolarr(objarr(x) if isinstance(x, (list, tuple)) else x)
    return np.any(x, *a, **k)


def _fold(f):
    def g(x, axis=None, **k):
        x = objarr(x)
        if axis is not None and x.ndim > 1:
            raise Unsupported('axis')
        it = list(x.flat)
        r = it[0]
        for v in it[1:]:
            r = f(r, v)
        return r
    return g


def _mx(a, b):
    return a if bool(Sym(to_expr(a)) >= b) else b


def _mn(a, b):
    return a if bool(Sym(to_expr(a)) <= b) else b


def _red(name, f):
    real = getattr(np, name)

    def g(x, *a, **k):
        if has_sym(x):
            return f(x, *a, **k)
        return real(x, *a, **k)
    return g


def maximum(a, b, **k):
    return emap(_mx, a, b) if any_sym((a, b), {}) else np.maximum(a, b, **k)


def minimum(a, b, **k):
    return emap(_mn, a, b) if any_sym((a, b), {}) else np.minimum(a, b, **k)


def clip(x, lo, hi, **k):
    if any_sym((x, lo, hi), {}):
        r = x
        if lo is not None:
            r = maximum(r, lo)
        if hi is not None:
            r = minimum(r, hi)
        return r
    return np.clip(x, lo, hi, **k)


def power(a, b, **k):
    if any_sym((a, b), {}):
        return emap(lambda x, y: (Sym(to_expr(x)))**y, a, b)
    return sx_pow(a, b)


def float_power(a, b, **k):
    return power(a, b)


def binop(f):
    def g(a, b, *r, **k):
        if any_sym((a, b), {}):
            return emap(lambda x, y: f(Sym(to_expr(x)), y), a, b)
        return f(a, b)
    return g


def cmpop(name, f):
    def g(a, b, **k):
        if any_sym((a, b), {}):
            return _mask(emap(lambda x, y: f(Sym(to_expr(x)), y), a, b))
        return getattr(np, name)(a, b, **k)
    return g


def logical(f, real):
    def g(a, *b, **k):
        if any_sym((a,) + b, {}):
            return _mask(emap(lambda *x: f(*x), a, *b))
        return real(a, *b, **k)
    return g


def unique(x, **k):
    if not has_sym(x):
        return np.unique(x, **k)
    index = k.pop('return_index', False)
    if any(k.values()):
        raise Unsupported('unique kwargs')
    out = []
    for i, v in enumerate(objarr(x).flat):
        if not any(bool(Sym(to_expr(v)) == w) for w, j in out):
            out.append((v, i))
    # sorted
    import functools
    out.sort(key=functools.cmp_to_key(lambda a, b: -1 if bool(Sym(to_expr(a[0])) < b[0]) else 1))
    vals = objarr([v for v, i in out])
    return (vals, np.array([i for v, i in out], dtype=int)) if index else vals


def sort(x, **k):
    if not has_sym(x):
        return np.sort(x, **k)
    import functools
    out = list(objarr(x).flat)
    out.sort(key=functools.cmp_to_key(
        lambda a, b: -1 if bool(Sym(to_expr(a)) < b) else (1 if bool(Sym(to_expr(a)) > b) else 0)))
    return objarr(out)


def isin(x, test, **k):
    if not any_sym((x, test), {}):
        return np.isin(x, test, **k)
    ts = list(objarr(test).flat)
    inv = k.get('invert', False)

    def f(v):
        r = any(bool(Sym(to_expr(v)) == w) for w in ts)
        return r != inv
    return _mask(emap(f, x))


def searchsorted(a, v, side='left', **k):
    if not any_sym((a, v), {}):
        return np.searchsorted(a, v, side=side, **k)
    a = list(objarr(a).flat)

    def f(x):
        i = 0
        for w in a:
            if (bool(Sym(to_expr(w)) < x) if side == 'left' else bool(Sym(to_expr(w)) <= x)):
                i += 1
            else:
                break
        return i
    r = emap(f, v)
    return r.astype(int) if isinstance(r, np.ndarray) else r


def diff(x, n=1, **k):
    if has_sym(x):
        x = objarr(x)
        for _ in range(n):
            x = x[1:] - x[:-1]
        return x
    return np.diff(x, n, **k)


def median_of(vals):
    import functools
    out = list(vals)
    out.sort(key=functools.cmp_to_key(
        lambda a, b: -1 if bool(Sym(to_expr(a)) < b) else (1 if bool(Sym(to_expr(a)) > b) else 0)))
    n = len(out)
    if n == 0:
        return NAN
    if n % 2:
        return out[n // 2]
    return (Sym(to_expr(out[n // 2 - 1])) + out[n // 2]) / 2


def nanmedian(x, **k):
    if has_sym(x):
        return median_of([v for v in objarr(x).flat if not (isinstance(v, Sym) and v.e is sp.nan
                                                            or isinstance(v, float) and v != v)])
    return np.nanmedian(x, **k)


def median(x, **k):
    if has_sym(x):
        if any(v is NAN or isinstance(v, Sym) and v.e is sp.nan or isinstance(v, float) and v != v
               for v in objarr(x).flat):
            return NAN
        return median_of(objarr(x).flat)
    return np.median(x, **k)


def real_if_close(x, tol=100):
    return x if has_sym(x) else np.real_if_close(x, tol)


def np_real(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return emap(lambda t: t.real if isinstance(t, Sym) else Sym(to_expr(t)).real, x)
    return x.real if isinstance(x, Sym) else np.real(x)


def np_imag(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return emap(lambda t: t.imag if isinstance(t, Sym) else Sym(to_expr(t)).imag, x)
    return x.imag if isinstance(x, Sym) else np.imag(x)


def isscalar(x):
    return True if isinstance(x, Sym) and not isinstance(x, GridArr) else np.isscalar(x)


def size(x, *a):
    if isinstance(x, GridArr):
        return x.n
    if isinstance(x, Sym):
        return 1
    return np.size(x, *a)


def ndim(x):
    return 1 if isinstance(x, GridArr) else 0 if isinstance(x, Sym) else np.ndim(x)


def shape(x):
    return (x.n,) if isinstance(x, GridArr) else () if isinstance(x, Sym) else np.shape(x)


def stacker(name):
    real = getattr(np, name)

    def g(xs, *a, **k):
        if has_sym(xs):
            return real([objarr(x) for x in xs], *a, **k)
        return real(xs, *a, **k)
    return g


def atleast_1d(*xs):
    r = [np.atleast_1d(objarr(x)) if has_sym(x) else np.atleast_1d(x) for x in xs]
    return r[0] if len(r) == 1 else tuple(r)


def np_sum(x, axis=None, **k):
    if has_sym(x):
        x = objarr(x)
        return x.sum(axis=axis)
    return np.sum(x, axis=axis, **k)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if any_sym((a, b), {}):
        return _mask(emap(lambda x, y: abs(Sym(to_expr(x)) - y)
                          <= Sym(to_expr(atol)) + Sym(to_expr(rtol)) * abs(Sym(to_expr(y))), a, b))
    return np.isclose(a, b, rtol=rtol, atol=atol, **k)


def allclose(a, b, **k):
    return bool(np_all(isclose(a, b, **k)))


def array_equal(a, b, **k):
    if any_sym((a, b), {}):
        a, b = objarr(a), objarr(b)
        return a.shape == b.shape and all(bool(Sym(to_expr(x)) == y) for x, y in zip(a.flat, b.flat))
    return np.array_equal(a, b, **k)


def polyval(p, x):
    if any_sym((p, x), {}):
        r = S_ZERO
        for c in objarr(p).flat:
            r = r * x + c
        return r
    return np.polyval(p, x)


def argx(better):
    def g(x, *a, **k):
        x = list(objarr(x).flat)
        b = 0
        for i in range(1, len(x)):
            if bool(better(Sym(to_expr(x[i])), x[b])):
                b = i
        return b
    return g


def cumx(f):
    def g(x, *a, **k):
        out = []
        for v in objarr(x).flat:
            out.append(v if not out else f(out[-1], v))
        return objarr(out)
    return g


def interp(x, xp, fp, **k):
    if any_sym((x, xp, fp), {}):
        return interp1d_stub(xp, fp)(x)
    return np.interp(x, xp, fp, **k)


def errstate(*a, **k):
    return np.errstate(*a, **k)


import operator as _op  # noqa: E402

NP_OVER = {n: unary(n) for n in (
    'sqrt exp expm1 log log1p log10 log2 sin cos tan arcsin arccos arctan sinh cosh tanh arcsinh '
    'arccosh arctanh square cbrt reciprocal sign abs absolute fabs exp2').split()}
NP_OVER.update(
    asin=NP_OVER['arcsin'], acos=NP_OVER['arccos'], atan=NP_OVER['arctan'],
    asinh=NP_OVER['arcsinh'], acosh=NP_OVER['arccosh'], atanh=NP_OVER['arctanh'],
    pi=Sym(sp.pi), e=Sym(sp.E), euler_gamma=Sym(sp.EulerGamma),
    zeros=zeros, ones=ones, empty=zeros, full=full, zeros_like=zeros_like, ones_like=ones_like,
    empty_like=empty_like, full_like=full_like, array=array, asarray=asarray, asanyarray=asarray,
    linspace=linspace, logspace=logspace, isnan=isnan2, isfinite=isfinite, isinf=isinf, where=where,
    argwhere=argwhere, nonzero=nonzero, flatnonzero=flatnonzero, all=np_all, any=np_any,
    max=_red('max', _fold(_mx)), min=_red('min', _fold(_mn)), amax=_red('amax', _fold(_mx)),
    amin=_red('amin', _fold(_mn)), maximum=maximum, minimum=minimum, fmax=maximum, fmin=minimum,
    clip=clip, power=power, pow=power, float_power=float_power,
    add=binop(_op.add), subtract=binop(_op.sub), multiply=binop(_op.mul),
    divide=binop(lambda a, b: sx_div(a, b)), true_divide=binop(lambda a, b: sx_div(a, b)),
    greater=cmpop('greater', _op.gt), less=cmpop('less', _op.lt),
    greater_equal=cmpop('greater_equal', _op.ge), less_equal=cmpop('less_equal', _op.le),
    equal=cmpop('equal', _op.eq), not_equal=cmpop('not_equal', _op.ne),
    logical_and=logical(band, np.logical_and), logical_or=logical(bor, np.logical_or),
    logical_not=logical(bnot, np.logical_not),
    unique=unique, sort=sort, isin=isin, searchsorted=searchsorted, diff=diff, nanmedian=nanmedian,
    median=median, real_if_close=real_if_close, real=np_real, imag=np_imag, isscalar=isscalar,
    size=size, ndim=ndim, shape=shape, vstack=stacker('vstack'), hstack=stacker('hstack'),
    stack=stacker('stack'), concatenate=stacker('concatenate'), column_stack=stacker('column_stack'),
    atleast_1d=atleast_1d, sum=np_sum, isclose=isclose, allclose=allclose, array_equal=array_equal,
    polyval=polyval, argmax=_red('argmax', argx(_op.gt)), argmin=_red('argmin', argx(_op.lt)),
    cumsum=_red('cumsum', cumx(_op.add)), cumprod=_red('cumprod', cumx(_op.mul)), interp=interp,
    negative=binop(lambda a, b: -a) if False else (lambda x, **k: -objarr(x) if isinstance(x, list)
                                                   else -x),
    hypot=binop(lambda a, b: (a**2 + Sym(to_expr(b))**2)**Sym(sp.Rational(1, 2))),
    copysign=binop(lambda a, b: abs(a) * Sym(to_expr(b)).sign()),
)


def _reducible(name, f):
    real = getattr(np, name)

    class U:
        __name__ = name
        reduce = staticmethod(lambda a, *r, **k: _fold(f)(list(objarr(a).flat)) if has_sym(a) and objarr(a).ndim == 1
                              and not r and not k else real.reduce(a, *r, **k))
        accumulate = staticmethod(lambda a, *r, **k: real.accumulate(objarr(a) if has_sym(a) else a, *r, **k))
        outer = staticmethod(lambda a, b, **k: real.outer(objarr(a), objarr(b), **k) if any_sym((a, b), {})
                             else real.outer(a, b, **k))

        def __call__(self, *a, **k):
            return NPF[name](*a, **k)
    return U()


NPF = {n: NP_OVER[n] for n in ('add', 'multiply', 'logical_and', 'logical_or', 'maximum', 'minimum', 'subtract', 'divide')}
for _n in NPF:
    NP_OVER[_n] = _reducible(_n, NPF[_n])


class Numpy(Namespace):
    pass


NP_OVER['emath'] = Namespace('numpy.emath', np.emath, {'sqrt': emath_sqrt})
NP_OVER['iscomplexobj'] = lambda x: any(isinstance(t, _sym.Cx) for t in objarr(x).flat) \
    if has_sym(x) else np.iscomplexobj(x)
snp = Numpy('numpy', np, NP_OVER)


# -- operators rewritten at the AST level (exact rationals instead of float division) --------------
_NUM = (int, float)


def _plain(x):
    return type(x) in (int, float, bool)


def _fin(x):
    return not isinstance(x, float) or (x == x and x not in (float('inf'), float('-inf')))


def sx_div(a, b):
    if _plain(a) and _plain(b) and b != 0 and _fin(a) and _fin(b):
        r = Sym(to_expr(a) / to_expr(b))
        return r
    return a / b


def sx_pow(a, b):
    if _plain(a) and _plain(b) and _fin(a) and _fin(b):
        if type(a) is int and type(b) is int and b >= 0:
            return a**b
        if a == 0 and b < 0:
            return a**b
        if a < 0 and type(b) is float:
            return a**b
        return Sym(to_expr(a)**to_expr(b))
    return a**b


def _mkbin(op):
    def f(a, b):
        if _plain(a) and _plain(b) and (type(a) is float or type(b) is float) \
                and _fin(a) and _fin(b):
            return Sym(op(to_expr(a), to_expr(b)))
        return op(a, b)
    return f


def _printable(x):
    if isinstance(x, Sym):
        try:
            return float(sp.N(x.e)) if x.e.is_number else float('nan')
        except Exception:
            return float('nan')
    return x


def sx_mod(a, b):
    """`%`: in string formatting symbolic values print as nan."""
    if isinstance(a, str):
        if isinstance(b, tuple):
            b = tuple(_printable(x) for x in b)
        elif isinstance(b, dict):
            b = {k: _printable(x) for k, x in b.items()}
        else:
            b = _printable(b)
    return a % b


sx_add, sx_sub, sx_mul = _mkbin(_op.add), _mkbin(_op.sub), _mkbin(_op.mul)


# -- scipy ---------------------------------------------------------------------------------------
def _const(name):
    return Sym(sp.Symbol('const_' + name, positive=True))


CONST = {'hbar': _const('hbar'), 'c': _const('c'), 'G': _const('G'), 'k': _const('kB'),
         'e': _const('e'), 'pi': Sym(sp.pi), 'mega': 10**6, 'giga': 10**9, 'kilo': 10**3,
         'parsec': _const('parsec'), 'speed_of_light': _const('c'),
         'gravitational_constant': _const('G'), 'Boltzmann': _const('kB'),
         'elementary_charge': _const('e'), 'h': _const('hbar') * 2 * Sym(sp.pi),
         'Planck': _const('hbar') * 2 * Sym(sp.pi),
         'tera': 10**12, 'milli': 1e-3, 'eV': _const('e'), 'electron_volt': _const('e')}


def lambertw(z, k=0, tol=1e-8):
    if not has_sym(z):
        import scipy.special as ss
        return ss.lambertw(z, k, tol)

    def f(x):
        return Sym((LW if k == -1 else LW0)(to_expr(x)))
    if k not in (-1, 0):
        raise Unsupported('lambertw branch')
    P = _sym.CURRENT
    if P is not None:
        P.note('lambertw(k=%d): real branch by contract' % k)
    return emap(f, z)


def _Root(root):
    from scipy.optimize import OptimizeResult
    return OptimizeResult(root=root, converged=True, flag='converged', iterations=0, function_calls=0)


def root_scalar_stub(f, args=(), method=None, bracket=None, **k):
    """Contract: a sign change over the bracket (else ValueError), and a root inside it."""
    P = _sym.CURRENT
    if P is None:
        raise Unsupported('root_scalar outside path')
    hook = P.hooks.get('root_scalar')
    if hook:
        return hook(f, args, method, bracket, k)
    if not isinstance(args, tuple):
        args = (args,)
    if bracket is None:
        raise Unsupported('root_scalar without bracket')
    lo, hi = bracket
    asm = dict(real=True)
    try:
        if all(P.atoms.pos(P.atoms.norm(to_expr(b))) for b in (lo, hi)):
            asm = dict(positive=True)
    except Unsupported:
        pass
    # the solver is deterministic: the same equation and bracket give the same root
    x = Sym(sp.Symbol('root_arg', **asm))
    key = (to_expr(f(x, *args)), to_expr(lo), to_expr(hi))
    memo = P.__dict__.setdefault('roots', {})
    if key in memo:
        return _Root(memo[key])
    r = P.fresh('root', **asm)
    memo[key] = r
    P.assume((r - lo) * (hi - r) >= 0)
    P.assume(f(r, *args) == 0)
    P.note('root_scalar: contract stub (a root inside the bracket)')
    return _Root(r)


def brentq_stub(f, a, b, args=(), **k):
    return root_scalar_stub(f, args=args, bracket=(a, b)).root


class interp1d_stub:
    """Interpolation contract: exact at the nodes; a generic node for long grids."""

    def __init__(self, x, y, kind='linear', **k):
        self.x, self.y = x, y
        self.kw = dict(k, kind=kind)

    def __call__(self, v):
        P = _sym.CURRENT
        hook = P.hooks.get('interp1d') if P else None
        if hook:
            return hook(self, v)
        if isinstance(self.x, GridArr) or isinstance(self.y, GridArr):
            if not (isinstance(self.x, GridArr) and isinstance(self.y, GridArr)
                    and self.x.t == self.y.t):
                raise Unsupported('interp1d of unrelated grids')
            t = P.fresh('t_node', real=True)
            P.assume(t > 0)
            P.assume(t < 1)
            P.assume(Sym(self.x.e.subs(self.x.t, t.e)) == v)
            P.note('interp1d: contract stub (exact at nodes)')
            return Sym(self.y.e.subs(self.y.t, t.e))
        xs, ys = list(objarr(self.x).flat), list(objarr(self.y).flat)

        def at(q):
            q = Sym(to_expr(q))
            for i, xv in enumerate(xs):
                if bool(q == xv):
                    return ys[i]
            # between nodes: an opaque value of (data, point)
            return Sym(sp.Function('interp')(*[to_expr(a) for a in xs + ys], q.e))
        return emap(at, v)


def quad_stub(func=None, a=None, b=None, args=(), **k):
    P = _sym.CURRENT
    hook = P.hooks.get('quad') if P else None
    if hook:
        return hook(func=func, a=a, b=b, args=args)
    raise Unsupported('quad')


def zeta(x, q=None):
    if q is None and (isinstance(x, int) or isinstance(x, Sym) and x.e.is_Integer):
        return Sym(sp.zeta(int(x)))
    if has_sym(x):
        raise Unsupported('zeta')
    return Sym(sp.zeta(int(x))) if float(x).is_integer() else __import__('scipy').special.zeta(x)


def make_scipy():
    import scipy
    import scipy.constants
    import scipy.special
    import scipy.optimize
    import scipy.interpolate
    import scipy.integrate
    over = {
        'constants': Namespace('scipy.constants', scipy.constants, CONST),
        'special': Namespace('scipy.special', scipy.special, {'lambertw': lambertw, 'zeta': zeta}),
        'optimize': Namespace('scipy.optimize', scipy.optimize,
                              {'root_scalar': root_scalar_stub, 'brentq': brentq_stub}),
        'interpolate': Namespace('scipy.interpolate', scipy.interpolate,
                                 {'interp1d': interp1d_stub,
                                  'InterpolatedUnivariateSpline': SplineStub}),
        'integrate': Namespace('scipy.integrate', scipy.integrate,
                               {'quad': quad_stub, 'solve_ivp': solve_ivp_stub}),
    }
    return Namespace('scipy', scipy, over)


class SplineStub:
    def __init__(self, x, y, *a, **k):
        P = _sym.CURRENT
        hook = P.hooks.get('spline') if P else None
        self.x, self.y, self.a, self.k = x, y, a, k
        self.hook = hook

    def __call__(self, v, *a, **k):
        if self.hook:
            return self.hook(self, v)
        return interp1d_stub(self.x, self.y)(v)

    def derivatives(self, v):
        P = _sym.CURRENT
        hook = P.hooks.get('spline_derivatives') if P else None
        if hook:
            return hook(self, v)
        raise Unsupported('spline derivatives')


def solve_ivp_stub(*a, **k):
    P = _sym.CURRENT
    hook = P.hooks.get('solve_ivp') if P else None
    if hook:
        return hook(*a, **k)
    raise Unsupported('solve_ivp')


def pyoscode_solve_stub(*a, **k):
    P = _sym.CURRENT
    hook = P.hooks.get('pyoscode') if P else None
    if hook:
        return hook(*a, **k)
    raise Unsupported('pyoscode')


# -- warnings ---------------------------------------------------------------------------------------
def warn(message, category=None, stacklevel=1, *a, **k):
    P = _sym.CURRENT
    if P is not None:
        if isinstance(message, Warning):
            category = type(message)
        P.warnings.append((category or UserWarning, str(message)))


WARN = Namespace('warnings', _warnings, {'warn': warn})


# -- builtins -----------------------------------------------------------------------------------------
def sx_isinstance(o, cls):
    if isinstance(o, Sym):
        cl = cls if isinstance(cls, tuple) else (cls,)
        for c in cl:
            if isinstance(o, GridArr) and c is np.ndarray:
                return True
            if c in (float, SymFloat, complex, np.floating, np.number, np.float64) or c is Sym:
                return True
            if c in (int, SymInt, np.integer):
                if o.e.is_integer:
                    return True
            if isinstance(c, type) and c.__module__ == 'numbers':
                return True
        return False
    if isinstance(cls, tuple):
        cls = tuple(BUILTIN.get(c, c) if isinstance(c, type) else c for c in cls)
    else:
        cls = BUILTIN.get(cls, cls) if isinstance(cls, type) else cls
    return isinstance(o, cls)


class _FMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or isinstance(o, Sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_FMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return x.flat[0]
        return float(x)


class _IMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SymInt(int, metaclass=_IMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            if x.e.is_number:
                return int(x.e)
            if x.e.is_integer:
                return x
        return int(x, *a)


class _CMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, complex) or isinstance(o, _sym.Cx)

    def __subclasscheck__(cls, c):
        return issubclass(c, complex)

    def __eq__(cls, o):
        return o is cls or o is complex

    def __hash__(cls):
        return hash(complex)


class SymComplex(complex, metaclass=_CMeta):
    def __new__(cls, re=0, im=0):
        if any_sym((re, im), {}):
            re, im = _sym.Cx.of(re), _sym.Cx.of(im)
            return _sym.Cx(re.re - im.im, re.im + im.re)
        return complex(re, im) if im != 0 or not isinstance(re, str) else complex(re)


class _F64Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.float64) or isinstance(o, Sym) and not isinstance(o, _sym.Cx)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.float64)

    def __eq__(cls, o):
        return o is cls or o is np.float64

    def __hash__(cls):
        return hash(np.float64)


class SymFloat64(np.float64, metaclass=_F64Meta):
    def __new__(cls, x=0.0):
        if has_sym(x):
            return x if isinstance(x, (Sym, np.ndarray)) else objarr(x)
        return np.float64(x)


BUILTIN = {SymFloat: float, SymInt: int, SymComplex: complex, SymFloat64: np.float64}
for _n in ('float64', 'double'):
    setattr(snp, _n, SymFloat64)


def sx_max(*a, **k):
    if len(a) == 1:
        a = tuple(a[0])
    key = k.get('key', lambda x: x)
    if not a and 'default' in k:
        return k['default']
    r = a[0]
    for v in a[1:]:
        if bool(key(v) > key(r)):
            r = v
    return r


def sx_min(*a, **k):
    if len(a) == 1:
        a = tuple(a[0])
    key = k.get('key', lambda x: x)
    if not a and 'default' in k:
        return k['default']
    r = a[0]
    for v in a[1:]:
        if bool(key(v) < key(r)):
            r = v
    return r


def sx_pow_builtin(a, b, m=None):
    return sx_pow(a, b) if m is None else pow(a, b, m)


def make_math():
    over = {n: NP_OVER[m] for n, m in (
        ('sqrt', 'sqrt'), ('exp', 'exp'), ('expm1', 'expm1'), ('log1p', 'log1p'), ('sin', 'sin'),
        ('cos', 'cos'), ('tan', 'tan'), ('sinh', 'sinh'), ('cosh', 'cosh'), ('tanh', 'tanh'),
        ('asin', 'arcsin'), ('acos', 'arccos'), ('atan', 'arctan'), ('asinh', 'arcsinh'),
        ('acosh', 'arccosh'), ('atanh', 'arctanh'), ('fabs', 'abs'), ('log10', 'log10'),
        ('log2', 'log2'), ('cbrt', 'cbrt'))}

    def mlog(x, base=None):
        return NP_OVER['log'](x) if base is None else NP_OVER['log'](x) / NP_OVER['log'](base)

    def isclose_(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if any_sym((a, b), {}):
            a, b = Sym(to_expr(a)), Sym(to_expr(b))
            return bool(abs(a - b) <= maximum(Sym(to_expr(rel_tol)) * maximum(abs(a), abs(b)),
                                              abs_tol))
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    over.update(pi=Sym(sp.pi), e=Sym(sp.E), log=mlog, pow=sx_pow, isnan=isnan2, isfinite=isfinite,
                isinf=isinf, isclose=isclose_,
                prod=lambda xs, start=1: __import__('functools').reduce(_op.mul, xs, start),
                fsum=lambda xs: sum(xs), hypot=lambda *xs: NP_OVER['sqrt'](sum(x * x for x in xs)))
    return Namespace('math', _math, over)


def linear_interp1d(o, v):
    """Contract of scipy's default (linear) interp1d inside and outside of the nodes."""
    if o.kw.get('kind', 'linear') not in ('linear', 1):
        raise Unsupported('interp1d kind')
    xs, ys = list(objarr(o.x).flat), list(objarr(o.y).flat)
    ordered = [(a, b) for a, b in zip(xs, ys)]
    ordered = [ordered[i] for i in _order([a for a, b in ordered])]

    def at(q):
        q = Sym(to_expr(q))
        if bool(q < ordered[0][0]) or bool(q > ordered[-1][0]):
            fv = o.kw.get('fill_value')
            if fv is None or not (o.kw.get('bounds_error') is False or isinstance(fv, str)):
                raise ValueError('A value in x_new is outside the interpolation range.')
            if isinstance(fv, str):
                raise Unsupported('extrapolation')
            lo, hi = fv if isinstance(fv, tuple) else (fv, fv)
            return lo if bool(q < ordered[0][0]) else hi
        for (x0, y0), (x1, y1) in zip(ordered, ordered[1:]):
            if bool(q <= x1):
                return y0 + (q - x0) * (y1 - y0) / (x1 - x0)
        raise Unsupported('interp1d')
    return emap(at, v)


def _order(xs):
    out = []
    for i, x in enumerate(xs):
        k = len(out)
        while k and bool(Sym(to_expr(x)) < xs[out[k - 1]]):
            k -= 1
        out.insert(k, i)
    return out


def packaging_stub():
    """packaging.version whose parser can be taken over by the harness (hook 'version')."""
    try:
        import packaging
        from packaging import version
    except Exception:
        return None

    def parse(v):
        P = _sym.CURRENT
        hook = P.hooks.get('version') if P else None
        r = hook(v) if hook else None
        return r if r is not None else version.parse(v)
    ns = Namespace('packaging', packaging, {})
    setattr(ns, 'version', Namespace('packaging.version', version, {'parse': parse, 'Version': parse}))
    return ns
