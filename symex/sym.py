"""Proxy values that flow through the real code.

`Sym` wraps a sympy expression (used as the term language only), `SymBool` a comparison between
such terms.  Asking a `SymBool` for its truth value forks the execution: the path explorer decides,
with the solver, which sides are feasible.
"""
import numbers
from fractions import Fraction
import numpy as np
import sympy as sp
from sympy import S

CURRENT = None          # the Path being executed, or None


class Unsupported(Exception):
    """The code did something the encoding cannot represent."""


class LW(sp.Function):
    """Lambert W, lower real branch (k=-1): LW(x)*exp(LW(x)) = x, LW <= -1."""

    @classmethod
    def eval(cls, x):
        return None

    def fdiff(self, argindex=1):
        x = self.args[0]
        return self / (x * (1 + self))

    def _eval_is_real(self):
        return True

    def _eval_is_extended_real(self):
        return True

    def _eval_is_negative(self):
        return True

    def _eval_evalf(self, prec):
        import mpmath
        with mpmath.workprec(prec):
            x = self.args[0]._to_mpmath(prec) if self.args[0].is_number else None
            if x is None:
                return None
            return sp.Float._new(mpmath.lambertw(x, -1).real._mpf_, prec)


class LW0(LW):
    """Lambert W, principal real branch."""

    def _eval_is_negative(self):
        return None

    def _eval_evalf(self, prec):
        import mpmath
        with mpmath.workprec(prec):
            return sp.Float._new(mpmath.lambertw(self.args[0]._to_mpmath(prec), 0).real._mpf_, prec)


def rat(x):
    """Exact rational meant by a decimal float (shortest repr)."""
    f = float(x)
    if f != f or f in (float('inf'), float('-inf')):
        return sp.nan if f != f else (sp.oo if f > 0 else -sp.oo)
    fr = Fraction(repr(f))
    return sp.Rational(fr.numerator, fr.denominator)


def to_expr(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        raise Unsupported('boolean used as number')
    if isinstance(x, sp.Basic):
        return x
    if isinstance(x, (bool, np.bool_)):
        return S(int(x))
    if isinstance(x, (int, np.integer)):
        return sp.Integer(int(x))
    if isinstance(x, Fraction):
        return sp.Rational(x.numerator, x.denominator)
    if isinstance(x, (float, np.floating)):
        return rat(x)
    if isinstance(x, (complex, np.complexfloating)):
        return to_expr(x.real) + sp.I * to_expr(x.imag)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_expr(x.item())
    return None


def is_num(x):
    return isinstance(x, (bool, np.bool_, int, np.integer, float, np.floating, complex,
                          np.complexfloating, Fraction, Sym, sp.Basic))


def mk(e):
    return Sym(e)


def _bad(e):
    return e in (sp.nan, sp.zoo, sp.oo, -sp.oo) or e.has(sp.nan, sp.zoo)


class Sym:
    """A symbolic real (or complex) number."""

    __slots__ = ('e',)
    # numpy: real numpy handles ndarray(object) op Sym elementwise through our operators

    def __init__(self, e):
        self.e = e if isinstance(e, sp.Basic) else to_expr(e)
        if self.e is None:
            raise Unsupported('cannot make a symbol of %r' % (type(e),))

    # -- arithmetic -----------------------------------------------------------------------
    def _bin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return Cx.of(self)._bin(o, f)
        if type(o) is not Sym and isinstance(o, Sym):
            return NotImplemented       # the subclass's reflected operation applies
        y = to_expr(o)
        if y is None:
            return NotImplemented
        return Sym(f(self.e, y))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: _div(b, a))

    def __pow__(self, o, mod=None):
        return self._bin(o, _pow)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: _pow(b, a))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: sp.floor(a / b))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: sp.floor(b / a))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: sp.Mod(a, b))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: sp.Mod(b, a))

    def __neg__(self):
        return Sym(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        e = self.e
        if e.is_nonnegative:
            return self
        if e.is_nonpositive:
            return Sym(-e)
        if e.is_number and e.is_real:
            return Sym(abs(e))
        if e.has(sp.I) or e.is_real is False:
            re, im = e.as_real_imag()
            return Sym(sp.sqrt(re**2 + im**2))
        if CURRENT is None:
            return Sym(sp.Abs(e))
        return self if bool(self >= 0) else Sym(-e)

    # -- comparisons ----------------------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, (str, bytes)) or o is None:
            return NotImplemented
        y = to_expr(o)
        if y is None:
            return NotImplemented
        return compare(self.e, op, y)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        return bool(self != 0)

    # -- conversions ----------------------------------------------------------------------
    def __float__(self):
        if self.e.is_number:
            return float(self.e)
        raise Unsupported('float() of symbolic value %s' % str(self.e)[:80])

    def __int__(self):
        if self.e.is_number:
            return int(self.e)
        raise Unsupported('int() of symbolic value %s' % str(self.e)[:80])

    def __index__(self):
        if self.e.is_Integer:
            return int(self.e)
        raise TypeError('symbolic value used as an index')

    def __complex__(self):
        if self.e.is_number:
            return complex(self.e)
        raise Unsupported('complex() of symbolic value')

    def __round__(self, n=None):
        if self.e.is_number:
            return round(float(self.e), n) if n is not None else round(float(self.e))
        raise Unsupported('round() of symbolic value')

    def __repr__(self):
        return 'Sym(%s)' % self.e

    def __str__(self):
        return str(self.e)

    def __format__(self, spec):
        return str(self.e)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    # -- what numpy calls on objects ---------------------------------------------------------
    def conjugate(self):
        e = self.e
        return Sym(sp.conjugate(e))

    conj = conjugate

    @property
    def real(self):
        if self.e.is_real:
            return self
        return Sym(self.e.as_real_imag()[0])

    @property
    def imag(self):
        if self.e.is_real:
            return Sym(S.Zero)
        return Sym(self.e.as_real_imag()[1])

    def item(self):
        return self

    def squeeze(self):
        return self

    def tolist(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return np.dtype(object)

    def astype(self, *a, **k):
        return self

    def sqrt(self):
        if CURRENT is not None and getattr(CURRENT, 'strict', False) and not _bad(self.e) \
                and not bool(compare(self.e, '>=', S.Zero)):
            return Sym(sp.nan)
        return Sym(_pow(self.e, S.Half))

    def exp(self):
        return Sym(sp.exp(self.e))

    def exp2(self):
        return Sym(S(2)**self.e)

    def expm1(self):
        return Sym(sp.exp(self.e) - 1)

    def log(self):
        return Sym(sp.log(self.e))

    def log1p(self):
        return Sym(sp.log(1 + self.e))

    def log10(self):
        return Sym(sp.log(self.e) / sp.log(10))

    def log2(self):
        return Sym(sp.log(self.e) / sp.log(2))

    def sin(self):
        return Sym(sp.sin(self.e))

    def cos(self):
        return Sym(sp.cos(self.e))

    def tan(self):
        return Sym(sp.tan(self.e))

    def arcsin(self):
        return Sym(sp.asin(self.e))

    def arccos(self):
        return Sym(sp.acos(self.e))

    def arctan(self):
        return Sym(sp.atan(self.e))

    def sinh(self):
        return Sym(sp.sinh(self.e))

    def cosh(self):
        return Sym(sp.cosh(self.e))

    def tanh(self):
        return Sym(sp.tanh(self.e))

    def arcsinh(self):
        return Sym(sp.asinh(self.e))

    def arccosh(self):
        return Sym(sp.acosh(self.e))

    def arctanh(self):
        return Sym(sp.atanh(self.e))

    def square(self):
        return self * self

    def cbrt(self):
        return Sym(_pow(self.e, sp.Rational(1, 3)))

    def reciprocal(self):
        return Sym(_div(S.One, self.e))

    def sign(self):
        e = self.e
        if e.is_positive:
            return Sym(S.One)
        if e.is_negative:
            return Sym(-S.One)
        if e.is_zero:
            return Sym(S.Zero)
        if CURRENT is None:
            return Sym(sp.sign(e))
        if bool(self > 0):
            return Sym(S.One)
        if bool(self < 0):
            return Sym(-S.One)
        return Sym(S.Zero)

    def fabs(self):
        return abs(self)

    def isnan(self):
        return self.e is sp.nan

    def isfinite(self):
        return not _bad(self.e)

    def is_integer(self):
        return bool(self.e.is_integer)

    def as_integer_ratio(self):
        if self.e.is_Rational:
            return int(self.e.p), int(self.e.q)
        raise Unsupported('as_integer_ratio')


numbers.Number.register(Sym)


class _Pair:
    """Real and imaginary term, with the operators the arithmetic of `Sym` is written in."""

    __slots__ = ('re', 'im')
    __hash__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __add__(self, o):
        return _Pair(self.re + o.re, self.im + o.im)

    def __sub__(self, o):
        return _Pair(self.re - o.re, self.im - o.im)

    def __mul__(self, o):
        return _Pair(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    def __truediv__(self, o):
        if o.im == 0:
            return _Pair(_div(self.re, o.re), _div(self.im, o.re))
        n = o.re**2 + o.im**2
        return _Pair((self.re * o.re + self.im * o.im) / n, (self.im * o.re - self.re * o.im) / n)

    def __pow__(self, o):
        n = o.re if o.im == 0 else None
        if n is None or not (n.is_Integer and 0 <= n <= 8):
            if n is not None and self.im == 0 and self.re.is_nonnegative:
                return _Pair(self.re**n, S.Zero)
            raise Unsupported('complex power')
        out = _Pair(S.One, S.Zero)
        for _ in range(int(n)):
            out = out * self
        return out

    def __eq__(self, o):
        return isinstance(o, int) and self.im == 0 and bool(self.re == o)


class Cx(Sym):
    """A complex number with separate real and imaginary terms (numpy's complex128 values)."""

    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im
        super().__init__(re + sp.I * im)

    @classmethod
    def of(cls, o):
        if isinstance(o, Cx):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return cls(to_expr(o.real), to_expr(o.imag))
        y = to_expr(o)
        return None if y is None else cls(y, S.Zero)

    def _bin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        o = Cx.of(o)
        if o is None:
            return NotImplemented
        r = f(_Pair(self.re, self.im), _Pair(o.re, o.im))
        if isinstance(r, sp.Basic):
            r = _Pair(r, S.Zero)
        return Cx(r.re, r.im)

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __abs__(self):
        if self.im == 0:
            return abs(Sym(self.re))
        if self.re == 0:
            return abs(Sym(self.im))
        return Sym(sp.sqrt(self.re**2 + self.im**2))

    def conjugate(self):
        return Cx(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return Sym(self.re)

    @property
    def imag(self):
        return Sym(self.im)

    def sqrt(self):
        if self.im != 0:
            raise Unsupported('square root of a complex number')
        if bool(compare(self.re, '>=', S.Zero)):
            return Cx(_pow(self.re, S.Half), S.Zero)
        return Cx(S.Zero, _pow(-self.re, S.Half))

    def log(self):
        if self.im == 0:
            if bool(compare(self.re, '>', S.Zero)):
                return Cx(sp.log(self.re), S.Zero)
        elif self.re == 0:
            if bool(compare(self.im, '>', S.Zero)):
                return Cx(sp.log(self.im), sp.pi / 2)
        raise Unsupported('logarithm of a complex number')

    def exp(self):
        m = sp.exp(self.re)
        return Cx(m * sp.cos(self.im), m * sp.sin(self.im))

    def _cmp(self, o, op):
        y = Cx.of(o) if is_num(o) else None
        if y is None:
            return Sym._cmp(self, o, op)
        if op in ('==', '!='):
            r = band(compare(self.re, '==', y.re), compare(self.im, '==', y.im))
            return r if op == '==' else bnot(r)
        if self.im == 0 and y.im == 0:
            return compare(self.re, op, y.re)
        raise Unsupported('ordering of complex numbers')


def _cx_undefined(name):
    def f(self, *a):
        if self.im == 0:
            r = getattr(Sym(self.re), name)(*a)
            return Cx(r.e, S.Zero)
        raise Unsupported('%s of a complex number' % name)
    return f


for _n in ('exp2', 'expm1', 'log1p', 'log10', 'log2', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh',
           'arctan', 'arcsinh', 'cbrt'):
    setattr(Cx, _n, _cx_undefined(_n))


def _div(a, b):
    if b == 0:
        if a == 0 or a is sp.nan:
            return sp.nan
        return sp.zoo
    return a / b


def _pow(a, b):
    if b == 0:
        return S.One
    return a**b


_OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
        '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
_NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def compare(a, op, b):
    """Compare two sympy expressions; a Python bool when sympy already knows."""
    if a is sp.nan or b is sp.nan:
        return op == '!='
    if _bad(a) or _bad(b):
        if a in (sp.oo, -sp.oo) or b in (sp.oo, -sp.oo):
            r = _OPS[op](a, b) if op in ('==', '!=') else sp.Rel(a, b, op)
            if r in (True, False, sp.true, sp.false):
                return bool(r)
            # a finite symbolic value against an infinity
            if b is sp.oo or a is -sp.oo:
                return op in ('<', '<=', '!=')
            return op in ('>', '>=', '!=')
        raise Unsupported('comparison with undefined value')
    d = a - b
    if d.is_number:
        if d.is_real is False:
            if op == '==':
                return bool(d == 0)
            if op == '!=':
                return bool(d != 0)
            raise Unsupported('ordering of complex numbers')
        if d.is_Rational:
            v = d
        else:
            if sp.simplify(d) == 0:
                v = S.Zero
            else:
                v = d.evalf(40)
        return bool(_OPS[op](v, 0))
    # cheap sign knowledge
    if op in ('<', '>='):
        if d.is_negative:
            return op == '<'
        if d.is_nonnegative:
            return op == '>='
    if op in ('>', '<='):
        if d.is_positive:
            return op == '>'
        if d.is_nonpositive:
            return op == '<='
    if op in ('==', '!=') and d.is_zero is not None:
        return (op == '==') == bool(d.is_zero)
    return SymBool('cmp', (op, d))


class SymBool:
    """A comparison `d op 0`, or a boolean combination."""

    __slots__ = ('kind', 'args')

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args

    def __bool__(self):
        if CURRENT is None:
            raise Unsupported('symbolic branch outside of a path')
        return CURRENT.branch(self)

    def __invert__(self):
        if self.kind == 'cmp':
            return SymBool('cmp', (_NEG[self.args[0]], self.args[1]))
        return SymBool('not', (self,))

    logical_not = __invert__

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return ~self if o else self
        return (self & ~o) | (~self & o)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return ~(self ^ o)
        return NotImplemented

    def __hash__(self):
        return id(self)

    def all(self):
        return self

    any = all

    def item(self):
        return self

    # arithmetic use of a mask: concretise
    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        if self.kind == 'cmp':
            return '(%s %s 0)' % (self.args[1], self.args[0])
        return '%s%s' % (self.kind, self.args)


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
        elif isinstance(x, SymBool):
            out.append(x)
        else:
            raise Unsupported('and of %r' % (type(x),))
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool('and', tuple(out))


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
        elif isinstance(x, SymBool):
            out.append(x)
        else:
            raise Unsupported('or of %r' % (type(x),))
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool('or', tuple(out))


def bnot(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    return ~x
