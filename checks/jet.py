"""Truncated power series in a formal small parameter, with symbolic or float coefficients.

They flow through the real code like numbers; comparisons with zero are decided for a small enough
parameter, i.e. by the leading coefficient.
"""
import numpy as np
import sympy as sp
from symex.sym import Sym, Unsupported, to_expr

ORDER = 4       # coefficients kept


def _zero(x):
    if isinstance(x, Sym):
        return x.e is sp.S.Zero
    return x == 0


def conv(a, b, n):
    out = [0] * n
    for i, x in enumerate(a[:n]):
        if _zero(x):
            continue
        for j, y in enumerate(b[:n - i]):
            if not _zero(y):
                t = x * y
                out[i + j] = t if _zero(out[i + j]) else out[i + j] + t
    return out


def _exp(x):
    return x.exp() if isinstance(x, Sym) else np.exp(x)


def _log(x):
    return x.log() if isinstance(x, Sym) else np.log(x)


class Jet(Sym):
    """eps^v (c[0] + c[1] eps + ...) + l log(eps); `exact` if nothing was cut off."""

    __slots__ = ('v', 'c', 'l', 'q')

    def __init__(self, v, c, l=0):
        c = list(c)
        while c and _zero(c[0]):
            c.pop(0)
            v += 1
        if not c:
            v = 10**6          # zero to all orders kept
        self.v, self.c, self.l = v, c, l

    @property
    def e(self):
        raise Unsupported('a series is used as a number')

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'Jet(%s, %s, %s)' % (self.v, self.c, self.l)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def end(self):
        return self.v + len(self.c)

    @staticmethod
    def of(x):
        if isinstance(x, Jet):
            return x
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return Jet.of(x.item())
        if isinstance(x, Sym):
            return Jet(0, [x])
        if isinstance(x, np.generic):
            x = x.item()
        if isinstance(x, (int, float)):
            return Jet(0, [x])
        return None

    def _op(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        y = Jet.of(o)
        if y is None:
            return NotImplemented
        return f(self, y, isinstance(o, Jet))

    # a plain number carries no truncation: pad it to the precision of the series
    @staticmethod
    def _pad(n, v):
        return n.c + [0] * max(0, v - n.end()) if n.c else []

    def __add__(self, o):
        def f(a, b, isjet):
            bc = b.c if isjet else Jet._pad(b, max(a.end(), 1))
            ends = [x + len(c) for x, c in ((a.v, a.c), (b.v, bc)) if c]
            if not a.c or not b.c:
                r = a if not b.c else Jet(b.v, bc)
                return Jet(r.v, r.c, a.l + b.l)
            v, end = min(a.v, b.v), min(ends)
            out = [0] * (end - v)
            for x, c in ((a.v, a.c), (b.v, bc)):
                for i, t in enumerate(c):
                    k = x - v + i
                    if k < len(out) and not _zero(t):
                        out[k] = t if _zero(out[k]) else out[k] + t
            return Jet(v, out, a.l + b.l)
        return self._op(o, f)

    __radd__ = __add__

    def __neg__(self):
        return Jet(self.v, [-x for x in self.c], -self.l)

    def __pos__(self):
        return self

    def __sub__(self, o):
        r = Jet.of(o)
        if r is None or isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self + (-o if not isinstance(o, Jet) else -r)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        def f(a, b, isjet):
            if not isjet:
                x = b.c[0] if b.c else 0
                return Jet(a.v, [0 if _zero(t) else t * x for t in a.c] if not _zero(x) else [], a.l * x if a.l else 0)
            if a.l or b.l:
                raise Unsupported('product of logarithms of the small parameter')
            if not a.c or not b.c:
                return Jet(0, [])
            return Jet(a.v + b.v, conv(a.c, b.c, min(len(a.c), len(b.c))))
        return self._op(o, f)

    __rmul__ = __mul__

    def reciprocal(self):
        if self.l or not self.c:
            raise Unsupported('reciprocal of a series without leading term')
        n = len(self.c)
        r = 1 / self.c[0]
        out = [r]
        for k in range(1, n):
            s = 0
            for i in range(1, k + 1):
                if not _zero(self.c[i]) and not _zero(out[k - i]):
                    s = s + self.c[i] * out[k - i]
            out.append(-s * r if not _zero(s) else 0)
        return Jet(-self.v, out)

    def __truediv__(self, o):
        def f(a, b, isjet):
            if isjet:
                return a * b.reciprocal()
            x = b.c[0]
            return Jet(a.v, [0 if _zero(t) else t / x for t in a.c], a.l / x if a.l else 0)
        return self._op(o, f)

    def __rtruediv__(self, o):
        return self.reciprocal() * o

    def __pow__(self, n, mod=None):
        if isinstance(n, Sym) and not isinstance(n, Jet) and n.e.is_Integer:
            n = int(n.e)
        if isinstance(n, (float, np.floating)) and float(n).is_integer():
            n = int(n)
        if not isinstance(n, (int, np.integer)):
            return (self.log() * n).exp()
        if n < 0:
            return self.reciprocal()**(-n)
        out = None
        for _ in range(int(n)):
            out = self if out is None else out * self
        return Jet(0, [1] + [0] * (len(self.c) - 1)) if out is None else out

    def __rpow__(self, o):
        return (self * _log(o)).exp()

    def square(self):
        return self * self

    def sqrt(self):
        return (self.log() / 2).exp()

    def log(self):
        if self.l or not self.c:
            raise Unsupported('logarithm of a series')
        n = len(self.c)
        r = [x if _zero(x) else x / self.c[0] for x in self.c]
        # L' = r'/r
        out = [_log(self.c[0])]
        for k in range(1, n):
            s = k * r[k] if not _zero(r[k]) else 0
            for i in range(1, k):
                if not _zero(out[i]) and not _zero(r[k - i]):
                    s = s - i * out[i] * r[k - i]
            out.append(s / k if not _zero(s) else 0)
        return Jet(0, out, self.v)

    def exp(self):
        if self.c and self.v < 0:
            raise Unsupported('exponential of a negative power')
        l = self.l
        if isinstance(l, Sym):
            l = int(l) if l.e.is_Integer else l.e
        if int(l) != l:
            raise Unsupported('fractional power of the small parameter')
        if not self.c:
            return Jet(int(l), [1] + [0] * (ORDER - 1))
        a = [0] * self.v + self.c
        n = len(a)
        e0 = _exp(a[0]) if not _zero(a[0]) else 1
        out = [1]
        for k in range(1, n):
            s = 0
            for i in range(1, k + 1):
                if not _zero(a[i]) and not _zero(out[k - i]):
                    s = s + i * a[i] * out[k - i]
            out.append(s / k if not _zero(s) else 0)
        return Jet(int(l), [x if _zero(x) else x * e0 for x in out])

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def isinf(self):
        return False

    def _sgn(self, o):
        if self.l:
            raise Unsupported('sign of a logarithm')
        d = self - o
        return d.c[0] if d.c else 0

    def __lt__(self, o):
        return self._sgn(o) < 0

    def __le__(self, o):
        return self._sgn(o) <= 0

    def __gt__(self, o):
        return self._sgn(o) > 0

    def __ge__(self, o):
        return self._sgn(o) >= 0

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __bool__(self):
        return bool(self.c)

    def __float__(self):
        raise Unsupported('a series is used as a float')

    def coef(self, k):
        """Coefficient of eps^k."""
        if not self.c or k < self.v:
            return 0
        if k >= self.end():
            raise Unsupported('coefficient beyond the truncation')
        return self.c[k - self.v]
