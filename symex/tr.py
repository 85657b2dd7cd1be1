"""Translation of terms into polynomial arithmetic for z3.

Every transcendental sub-term becomes a named real atom, with the algebraic relations between atoms
kept (exp(a+b)=exp a exp b, x^(a+b)=x^a x^b, (x^a)^b=x^(ab) for x>0, log(xy)=log x+log y for x,y>0,
cos^2+sin^2=1 and multiple angles, W exp W = x, roots).  What is dropped only over-approximates, so
`unsat` is a verdict about the real functions; `sat` is a candidate which is replayed.
"""
import sympy as sp
from sympy import S
import z3
from .sym import SymBool, LW, LW0, Unsupported
from math import lcm


class Atoms:
    """Registry of atoms shared by the queries of one path."""

    def __init__(self, assumptions=()):
        self.assumptions = list(assumptions)     # sympy-level SymBool / bool
        self.byk = {}          # key -> Symbol
        self.info = {}         # Symbol -> (kind, data)
        self.ncache = {}
        self.poscache = {}
        self.n = 0
        self.busy = set()
        self.eqsub = {}        # symbols a path condition fixes to a number

    def clone_key(self):
        return len(self.assumptions)

    def assume(self, c):
        self.assumptions.append(c)
        self.poscache = {k: v for k, v in self.poscache.items() if v is not None}
        if isinstance(c, SymBool) and c.kind == 'cmp' and c.args[0] == '==':
            # x = number: use it everywhere
            d = c.args[1]
            fs = d.free_symbols
            if len(fs) == 1:
                x = next(iter(fs))
                v = sp.expand(x - d) if d.coeff(x) == 1 else sp.expand(x + d)
                if v.is_Rational:
                    self.eqsub[x] = v
                    self.ncache = {}

    def atom(self, kind, key, prefix, **asm):
        k = (kind, key)
        if k in self.byk:
            return self.byk[k]
        self.n += 1
        s = sp.Symbol('%s!%d' % (prefix, self.n), **(asm or {'real': True}))
        self.byk[k] = s
        self.info[s] = (kind, key)
        return s

    # -- sign oracle --------------------------------------------------------------------------
    def pos(self, e):
        """True when e > 0 follows from the assumptions (solver-backed)."""
        if e.is_positive:
            return True
        if e.is_nonpositive:
            return False
        if e.is_number:
            try:
                return bool(e.evalf(30) > 0)
            except TypeError:
                return False
        if e in self.poscache and self.poscache[e] is not None:
            return self.poscache[e]
        if e in self.busy:
            return False
        self.busy.add(e)
        try:
            r = quick_unsat(self, [SymBool('cmp', ('<=', e))], timeout=3000)
        finally:
            self.busy.discard(e)
        self.poscache[e] = True if r else None
        return bool(r)

    # -- normalisation --------------------------------------------------------------------------
    def roots(self, e):
        """Replace integer powers of named radicands by the radicand."""
        if e.is_Symbol:
            inf = self.info.get(e)
            return inf[1] if inf and inf[0] == 'named' else e
        if not e.args or not any(self.info.get(t, ('',))[0] == 'named' for t in e.free_symbols):
            return e
        if e.is_Pow and e.args[0].is_Symbol and e.args[1].is_Rational:
            b, k = e.args
            inf = self.info.get(b)
            if inf and inf[0] == 'named':
                fl = sp.floor(k)
                return inf[1]**fl * b**(k - fl)
            return e
        return e.func(*[self.roots(a) for a in e.args])

    def canon(self, e):
        if e.is_Number:
            return e
        for _ in range(4):
            f = self.canon1(e)
            g = self.roots(f) if f.free_symbols else f
            if g == f:
                break
            e = g
        return f

    def canon1(self, e):
        if e.is_Symbol or e.is_Number:
            return e
        try:
            if sp.count_ops(e) > 400:
                return e
            n, d = sp.fraction(sp.together(e))
            if d.is_number:
                r = sp.expand(e)
            else:
                r = sp.cancel(e)
            return r
        except Exception:
            return e

    def norm(self, e):
        r = self.ncache.get(e)
        if r is None:
            f = e.subs(self.eqsub) if self.eqsub and e.free_symbols & set(self.eqsub) else e
            r = self._norm(f)
            self.ncache[e] = r
        return r

    def _norm(self, e):
        if e.is_Symbol:
            return e
        if e.is_Rational:
            return e
        if e is sp.I:
            return e
        if e.is_Float:
            raise Unsupported('float in term')
        if e is sp.E:
            return self.expo(S.One)
        if e.is_NumberSymbol:      # pi, EulerGamma, ...
            return self.atom('const', e, 'K' + str(e), positive=True)
        if e.is_Add or e.is_Mul:
            return e.func(*[self.norm(a) for a in e.args])
        if e.is_Pow:
            b, x = e.args
            if b is sp.E:
                return self.expo(self.norm(x))
            if x.is_Integer:
                return self.norm(b)**x
            return self.powr(self.norm(b), self.norm(x))
        if isinstance(e, sp.exp):
            return self.expo(self.norm(e.args[0]))
        if isinstance(e, sp.log):
            return self.log(self.norm(e.args[0]))
        if isinstance(e, (sp.sinh, sp.cosh, sp.tanh, sp.coth, sp.sech, sp.csch)):
            return self.norm(e.rewrite(sp.exp))
        if isinstance(e, sp.asinh):
            x = e.args[0]
            return self.norm(sp.log(x + sp.sqrt(x**2 + 1)))
        if isinstance(e, sp.acosh):
            x = e.args[0]
            return self.norm(sp.log(x + sp.sqrt(x**2 - 1)))
        if isinstance(e, sp.atanh):
            x = e.args[0]
            return self.norm((sp.log(1 + x) - sp.log(1 - x)) / 2)
        if isinstance(e, (sp.sin, sp.cos, sp.tan, sp.cot, sp.sec, sp.csc)):
            return self.trig(type(e), self.norm(e.args[0]))
        if isinstance(e, (sp.atan, sp.acos, sp.asin)):
            return self.atom(type(e).__name__, self.canon(self.norm(e.args[0])),
                             type(e).__name__, real=True)
        if isinstance(e, (LW0, LW)):
            k = 'lw0' if isinstance(e, LW0) else 'lw'
            x = self.canon_exp(self.norm(e.args[0]))
            if k == 'lw':
                return self.atom(k, x, 'W', negative=True)
            return self.atom(k, x, 'W0', real=True)
        if isinstance(e, sp.Abs):
            x = self.norm(e.args[0])
            if self.pos(x):
                return x
            if self.pos(-x):
                return -x
            return self.atom('abs', self.canon(x), 'Abs', nonnegative=True)
        if isinstance(e, sp.sign):
            x = self.norm(e.args[0])
            if self.pos(x):
                return S.One
            if self.pos(-x):
                return -S.One
            raise Unsupported('sign of unknown')
        if isinstance(e, (sp.re, sp.im, sp.conjugate)):
            x = e.args[0]
            if isinstance(e, sp.conjugate):
                re, im = x.as_real_imag()
                return self.norm(re - sp.I * im)
            raise Unsupported('%s' % e)
        if e.is_Function:
            key = (type(e).__name__,) + tuple(self.canon(self.norm(a)) for a in e.args)
            asm = {'positive': True} if e.is_positive else {'real': True}
            return self.atom('fn', key, 'F' + type(e).__name__, **asm)
        if e.is_number:
            return self.atom('const', e, 'K', real=True)
        raise Unsupported('cannot encode %s (%s)' % (str(e)[:80], type(e).__name__))

    def canon_exp(self, x):
        return self.canon(x)

    def trig_terms(self, a):
        return sp.Add.make_args(self.canon(a))

    def trig(self, f, a):
        a = self.canon(a)
        if a == 0:
            return {sp.cos: S.One, sp.sec: S.One}.get(f, S.Zero)
        cs = self.cossin(a)
        c, s = cs
        return {sp.cos: c, sp.sin: s, sp.tan: s / c, sp.cot: c / s, sp.sec: 1 / c,
                sp.csc: 1 / s}[f]

    def cossin(self, a):
        args = sp.Add.make_args(a)
        if len(args) > 1:
            c, s = S.One, S.Zero
            for t in args:
                c1, s1 = self.cossin(t)
                c, s = c * c1 - s * s1, s * c1 + c * s1
            return c, s
        k, m = a.as_coeff_Mul()
        if k < 0:
            c, s = self.cossin(-a)
            return c, -s
        inf = self.info.get(m)
        # multiples of pi
        if inf and inf[0] == 'const' and inf[1] is sp.pi:
            return self.norm(sp.cos(k * sp.pi)), self.norm(sp.sin(k * sp.pi))
        n, d = int(k.p), int(k.q)
        if inf and inf[0] in ('atan', 'acos', 'asin') and d == 1:
            X = inf[1]
            if inf[0] == 'atan':
                c1 = self.powr(1 + X**2, -S.Half)
                s1 = X * c1
            elif inf[0] == 'acos':
                c1 = X
                s1 = self.powr(1 - X**2, S.Half)
            else:
                s1 = X
                c1 = self.powr(1 - X**2, S.Half)
            return self.multiple(c1, s1, n)
        # base angle: m/2 for whole and half multiples, m/d otherwise
        D = 2 if d in (1, 2) else d
        c1 = self.atom('cos', m / D, 'c', real=True)
        s1 = self.atom('sin', m / D, 's', real=True)
        return self.multiple(c1, s1, n * D // d)

    def multiple(self, c, s, n):
        if n == 0:
            return S.One, S.Zero
        if n == 1:
            return c, s
        if n == 2:
            return c**2 - s**2, 2 * s * c
        a, b = self.multiple(c, s, n // 2)
        A, B = a * a - b * b, 2 * a * b
        if n % 2:
            A, B = A * c - B * s, B * c + A * s
        return A, B

    def expo(self, a):
        a = self.canon(a)
        a = sp.expand(a)
        out = S.One
        for t in sp.Add.make_args(a):
            out *= self.expo1(t)
        return out

    def expo1(self, t):
        if t == 0:
            return S.One
        # log atoms in t:  exp(k*log X) = X^k
        for f in sp.Mul.make_args(t):
            inf = self.info.get(f)
            if inf and inf[0] == 'log':
                return self.powr(inf[1], t / f)
            if inf and inf[0] in ('lw', 'lw0'):
                c = t / f
                if c.is_Integer:
                    return (inf[1] / f)**c
        k, m = t.as_coeff_Mul()
        if not k.is_Rational:
            m, k = t, S.One
        sg = 1
        E = self.atom('exp', m, 'E', positive=True)
        return E**(k * sg)

    def powr(self, B, e):
        """B**e for B > 0 (real power), both normalised."""
        if e == 0:
            return S.One
        if e.is_Integer:
            return B**e
        e = self.canon(e)
        if e.is_Integer:
            return B**e
        if B.is_Rational and B > 0 and not (e.is_Rational):
            out = S.One
            for q, n in sp.factorint(B.p).items():
                if q != 1:
                    out *= self.powbase(sp.Integer(q), n * e)
            for q, n in sp.factorint(B.q).items():
                if q != 1:
                    out *= self.powbase(sp.Integer(q), -n * e)
            return out
        if B.is_Symbol or B.is_Number:
            return self.powbase(B, e)
        B = self.factor(B)
        fs = sp.Mul.make_args(B)
        if len(fs) == 1 and B.is_Pow and (B.args[1].is_Rational):
            b, n = B.args
            if self.pos(b):
                return self.powr(b, n * e)
            if n.is_even and self.pos(-b):
                return self.pown(b, n * e)
            return self.powbase(B, e)
        if len(fs) == 1:
            return self.powbase(B, e)
        out, rest = S.One, S.One
        neg = []
        for f in fs:
            b, n = f.as_base_exp()
            if self.pos(b):
                out *= self.powr(b, n * e)
            elif n.is_Integer and int(n) % 2 == 0 and self.pos(-b):
                out *= self.pown(b, n * e)
            elif self.pos(-b) and n.is_Integer:
                neg.append(f)
            else:
                rest *= f
        if len(neg) % 2 == 0:
            for f in neg:
                b, n = f.as_base_exp()
                out *= self.pown(b, n * e)
        elif rest != 1 and self.pos(-rest):
            for f in neg:
                b, n = f.as_base_exp()
                out *= self.pown(b, n * e)
            rest = -rest
        else:
            for f in neg:
                rest *= f
        if rest != 1:
            out *= self.powbase(rest, e) if rest != B else self.powbase(self.canon(rest), e)
        return out

    def pown(self, b, e):
        """(-b)**e for a negative factor b (which is not factored again: that could undo the sign)."""
        return self.powr(-b, e) if (-b).is_Number or b.is_Pow else self.powbase(-b, self.canon(e))

    def pyth(self, e):
        """Rewrite sin^2 as 1 - cos^2 in a numerator and a denominator."""
        ss = [a for a in e.free_symbols if self.info.get(a, ('',))[0] == 'sin']
        if not ss:
            return e
        n, d = sp.fraction(sp.together(e))
        out = []
        for q in (n, d):
            for a in ss:
                try:
                    P = sp.Poly(sp.expand(q), a)
                except sp.PolynomialError:
                    break
                c = self.atom('cos', self.info[a][1], 'c', real=True)
                q = sum(co * (1 - c**2)**(m // 2) * a**(m % 2) for (m,), co in P.terms())
            out.append(sp.expand(q))
        return out[0] / out[1]

    def factor(self, B):
        B = self.pyth(B)
        k = ('factor', B)
        if k in self.ncache:
            return self.ncache[k]
        r = B
        try:
            if sp.count_ops(B) < 200:
                # fractional powers hide factors: work on generators
                r = sp.factor(sp.together(B))
        except Exception:
            r = B
        self.ncache[k] = r
        return r

    def powbase(self, B, e):
        if isinstance(B, sp.Symbol):
            inf = self.info.get(B)
            if inf and inf[0] == 'pow':
                b, m = inf[1]
                return self.powr(b, self.canon(m * e))
            if inf and inf[0] == 'exp':
                return self.expo(sp.expand(inf[1] * e))
            b = B
            if not B.is_positive and not e.is_Rational:
                b = B
        elif B.is_Rational and e.is_Rational:
            # numeric root: keep primes apart
            if B.q == 1 and B > 0 and sp.isprime(B.p):
                b = self.atom('named', B, 'b', positive=True)
            elif B > 0:
                out = S.One
                for q, n in sp.factorint(B.p).items():
                    if q != 1:
                        out *= self.powr1(sp.Integer(q), n * e)
                for q, n in sp.factorint(B.q).items():
                    if q != 1:
                        out *= self.powr1(sp.Integer(q), -n * e)
                return out
            else:
                b = self.atom('named', B, 'b', nonnegative=True)
        else:
            asm = dict(positive=True) if self.pos(B) else dict(nonnegative=True)
            b = self.atom('named', self.canon(B) if not B.is_Pow else B, 'b', **asm)
        e = sp.expand(e)
        out = S.One
        for t in sp.Add.make_args(e):
            c, m = t.as_coeff_Mul()
            if m == 1:
                out *= b**c
            else:
                P = self.atom('pow', (b, m), 'P', positive=True)
                out *= P**c
        return out

    def powr1(self, q, e):
        if e.is_Integer:
            return q**e
        return self.powbase(q, e)

    def log(self, X):
        X = self.factor(X)
        out = S.Zero
        rest = S.One
        negs = []
        for f in sp.Mul.make_args(X):
            b, n = f.as_base_exp()
            if self.pos(b):
                out += n * self.log1(b)
            elif self.pos(-b) and n.is_Integer:
                if int(n) % 2:
                    negs.append(f)
                else:
                    out += n * self.log1(-b)
            else:
                rest *= f
        if len(negs) % 2 == 1:
            if rest != 1:
                rest = -rest
                out += sum(f.as_base_exp()[1] * self.log1(-f.as_base_exp()[0]) for f in negs)
            else:
                for f in negs:
                    rest *= f
        else:
            out += sum(f.as_base_exp()[1] * self.log1(-f.as_base_exp()[0]) for f in negs)
        if rest != 1:
            out += self.log1(rest)
        return out

    def log1(self, b):
        if b == 1:
            return S.Zero
        if b.is_Integer and b > 1 and not sp.isprime(b):
            return sum(n * self.log1(sp.Integer(q)) for q, n in sp.factorint(b).items())
        if b.is_Rational and b.q != 1:
            return self.log1(sp.Integer(b.p)) - self.log1(sp.Integer(b.q))
        inf = self.info.get(b)
        if inf:
            if inf[0] == 'exp':
                return inf[1]
            if inf[0] == 'pow':
                return inf[1][1] * self.log1(inf[1][0])
            if inf[0] == 'named' and b.is_positive:
                return self.log(inf[1])
        return self.atom('log', self.canon(b), 'L', real=True)


# ---------------------------------------------------------------------------------------------
class Z3T:
    """One query: normalised sympy terms -> z3."""

    def __init__(self, atoms):
        self.A = atoms
        self.roots = {}      # Symbol -> lcm of exponent denominators
        self.zv = {}         # Symbol -> z3 var (the D-th root)
        self.side = []
        self.facts = {}      # z3 id of den factors
        self.done = set()
        self.ordered = []
        self.both = False
        self.light = False
        self.mono = False    # add order facts about the atoms (only useful for inequalities)

    def scan(self, e):
        for p in e.atoms(sp.Pow):
            b, x = p.args
            if x.is_Rational and not x.is_Integer:
                if not b.is_Symbol:
                    raise Unsupported('unnormalised root %s' % p)
                self.roots[b] = lcm(self.roots.get(b, 1), int(x.q))
        for s in e.free_symbols:
            inf = self.A.info.get(s)
            if inf and inf[0] in ('named', 'abs') and s not in self.done:
                self.done.add(s)
                self.scan(inf[1])
            elif inf and self.mono and s not in self.done and \
                    inf[0] in ('log', 'exp', 'pow', 'acos', 'asin', 'atan'):
                self.done.add(s)
                for a in (inf[1] if inf[0] == 'pow' else (inf[1],)):
                    self.scan(a)
            elif inf and inf[0] in ('cos', 'sin') and s not in self.done:
                self.done.add(s)
                for kk in ('cos', 'sin'):
                    o = self.A.atom(kk, inf[1], kk[0], real=True)
                    self.done.add(o)
                m = inf[1].as_coeff_Mul()[1]
                minf = self.A.info.get(m)
                if minf and minf[0] in ('acos', 'asin', 'atan'):
                    self.scan(minf[1])

    def var(self, s):
        v = self.zv.get(s)
        if v is None:
            v = z3.Real(s.name)
            self.zv[s] = v
            D = self.roots.get(s, 1)
            if s.is_positive:
                self.side.append(v > 0)
            elif s.is_nonnegative:
                self.side.append(v >= 0)
            elif s.is_negative:
                self.side.append(v < 0)
            elif s.is_nonpositive:
                self.side.append(v <= 0)
            elif s.is_nonzero:
                self.side.append(v != 0)
            if D > 1 and not (s.is_nonnegative):
                self.side.append(v >= 0)
            if s.is_integer:
                self.side.append(z3.IsInt(v))
            inf = self.A.info.get(s)
            if inf:
                kind, data = inf
                if kind == 'const':
                    q = data.evalf(40)
                    lo = sp.Rational(sp.floor(q * 10**12), 10**12)
                    self.side.append(v**D > z3.Q(int(lo.p), int(lo.q)))
                    hi = lo + sp.Rational(1, 10**12)
                    self.side.append(v**D < z3.Q(int(hi.p), int(hi.q)))
                elif kind == 'named':
                    n, im, d = self.tr(data)
                    if im is not None:
                        raise Unsupported('complex root')
                    self.side.append(zpow(v, D) * dprod(d) == n)
                elif kind == 'abs':
                    n, im, d = self.tr(data)
                    self.side.append(zpow(v, 2) * dprod(d)**2 == n * n)
                elif kind in ('cos', 'sin'):
                    c = self.A.atom('cos', data, 'c', real=True)
                    s2 = self.A.atom('sin', data, 's', real=True)
                    other = s2 if kind == 'cos' else c
                    if other not in self.zv:
                        w = self.var(other)
                        self.side.append(v * v + w * w == 1)
                        kk, m = data.as_coeff_Mul()
                        minf = self.A.info.get(m)
                        if minf and minf[0] in ('acos', 'asin', 'atan') and kk.p == 1:
                            C, Sn = self.A.multiple(c, s2, int(kk.q))
                            X = minf[1]
                            rel = {'acos': C - X, 'asin': Sn - X, 'atan': Sn - X * C}[minf[0]]
                            n, im, d = self.tr(rel)
                            self.side.append(n == 0)
                            # the principal branch: cos is decreasing on [0, pi]
                            if minf[0] == 'acos' and int(kk.q) > 1:
                                lo = sp.Rational(sp.floor(sp.cos(sp.pi / int(kk.q)) * 10**12),
                                                 10**12)
                                cz = self.zv[c]
                                sz = self.zv[s2]
                                self.side += [cz >= z3.Q(int(lo.p), int(lo.q)), sz >= 0]
                            elif int(kk.q) > 1:
                                self.side.append(self.zv[c] > 0)
                elif kind == 'lw':
                    self.side.append(v <= -1)
                if self.mono:
                    self.order(kind, data, v)
                    if kind in ('log', 'exp', 'atan', 'asin', 'pow'):
                        self.ordered.append((kind, data, v, s))
        return v

    def pairs(self):
        """Order facts between two atoms of the same kind."""
        for i, (k1, d1, v1, s1) in enumerate(list(self.ordered)):
            for k2, d2, v2, s2 in self.ordered[:i]:
                if k1 != k2 or len(self.ordered) > 14:
                    continue
                if k1 in ('log', 'exp', 'atan', 'asin'):
                    self.side.append((v1 > v2) == self.cond(('cmp', '>', d1 - d2)))
                    self.side.append((v1 < v2) == self.cond(('cmp', '<', d1 - d2)))
                elif k1 == 'pow' and d1[1] == d2[1]:
                    mp = self.cond(('cmp', '>', d1[1]))
                    mn = self.cond(('cmp', '<', d1[1]))
                    b = d1[0] - d2[0]
                    gt, lt = self.cond(('cmp', '>', b)), self.cond(('cmp', '<', b))
                    self.side.append((v1 > v2) == z3.Or(z3.And(mp, gt), z3.And(mn, lt)))
                    self.side.append((v1 < v2) == z3.Or(z3.And(mp, lt), z3.And(mn, gt)))

    def order(self, kind, data, v):
        def c(op, e):
            return self.cond(('cmp', op, e))
        if kind == 'log':
            self.side += [(v > 0) == c('>', data - 1), (v < 0) == c('<', data - 1)]
        elif kind == 'exp':
            self.side += [(v > 1) == c('>', data), (v < 1) == c('<', data)]
        elif kind == 'pow':
            b, m = data
            b1, b2, m1, m2 = c('>', b - 1), c('<', b - 1), c('>', m), c('<', m)
            self.side += [(v > 1) == z3.Or(z3.And(b1, m1), z3.And(b2, m2)),
                          (v < 1) == z3.Or(z3.And(b1, m2), z3.And(b2, m1))]
        elif kind in ('acos', 'asin', 'atan'):
            pi = self.var(self.A.norm(sp.pi))
            if kind == 'acos':
                self.side += [v >= 0, v <= pi, (v > 0) == c('<', data - 1),
                              (v < pi) == c('>', data + 1)]
            else:
                self.side += [2 * v <= pi, -2 * v <= pi, (v > 0) == c('>', data),
                              (v < 0) == c('<', data)]
                if kind == 'atan':
                    self.side += [2 * v < pi, -2 * v < pi]

    def tr(self, e):
        """(re, im or None, den factors {key: (z3, power)})"""
        if e.is_Symbol:
            D = self.roots.get(e, 1)
            return zpow(self.var(e), D), None, {}
        if e.is_Rational:
            return z3.Q(int(e.p), int(e.q)), None, {}
        if e is sp.I:
            return z3.RealVal(0), z3.RealVal(1), {}
        if e.is_Add:
            parts = [self.tr(a) for a in e.args]
            den = {}
            for _, _, d in parts:
                for k, (z, n) in d.items():
                    if k not in den or den[k][1] < n:
                        den[k] = (z, n)
            re, im = [], []
            for r, i, d in parts:
                fac = [zpow(z, n - (d[k][1] if k in d else 0)) for k, (z, n) in den.items()
                       if n > (d[k][1] if k in d else 0)]
                re.append(zprod([r] + fac))
                if i is not None:
                    im.append(zprod([i] + fac))
            return z3.Sum(re) if len(re) > 1 else re[0], \
                (z3.Sum(im) if len(im) > 1 else im[0]) if im else None, den
        if e.is_Mul:
            re, im, den = None, None, {}
            for a in e.args:
                r, i, d = self.tr(a)
                for k, (z, n) in d.items():
                    den[k] = (z, n + (den[k][1] if k in den else 0))
                if re is None:
                    re, im = r, i
                elif im is None and i is None:
                    re = re * r
                elif i is None:
                    re, im = re * r, im * r
                elif im is None:
                    re, im = re * r, re * i
                else:
                    re, im = re * r - im * i, re * i + im * r
            return re, im, den
        if e.is_Pow:
            b, x = e.args
            if not x.is_Rational:
                raise Unsupported('exponent %s' % x)
            if b.is_Symbol:
                D = self.roots.get(b, 1)
                k = x * D
                if not k.is_Integer:
                    raise Unsupported('root %s' % e)
                k = int(k)
                v = self.var(b)
                if k >= 0:
                    return zpow(v, k), None, {}
                return z3.RealVal(1), None, {b: (v, -k)}
            if not x.is_Integer:
                raise Unsupported('root %s' % e)
            n = int(x)
            r, i, d = self.tr(b)
            if n > 0:
                if i is None:
                    return zpow(r, n), None, {k: (z, m * n) for k, (z, m) in d.items()}
                R, I_ = r, i
                for _ in range(n - 1):
                    R, I_ = R * r - I_ * i, R * i + I_ * r
                return R, I_, {k: (z, m * n) for k, (z, m) in d.items()}
            n = -n
            dp = dprod(d)
            if i is None:
                den = {b: (r, n)}
                # the inner denominators move up (they are non-zero)
                for k, (z, m) in d.items():
                    self.facts[k] = z
                return zpow(dp, n), None, den
            for k, (z, m) in d.items():
                self.facts[k] = z
            R, I_ = dp * r, -dp * i
            R0, I0 = R, I_
            for _ in range(n - 1):
                R, I_ = R * R0 - I_ * I0, R * I0 + I_ * R0
            return R, I_, {('abs2', b): (r * r + i * i, n)}
        raise Unsupported('z3 translation of %s (%s)' % (str(e)[:60], type(e).__name__))

    # -- booleans -------------------------------------------------------------------------------
    def prep(self, c):
        """Normalise a condition (sympy level) before scanning."""
        if isinstance(c, bool):
            return c
        if c.kind == 'cmp':
            op, d = c.args
            n = self.A.norm(d)
            if op not in ('==', '!='):
                o2, n2 = self.logs(op, n)
                if self.both and n2 is not n:
                    return ('and', [('cmp', op, n), ('cmp', o2, n2)])
                op, n = o2, n2
            return ('cmp', op, n)
        return (c.kind, [self.prep(a) for a in c.args])

    def logs(self, op, n):
        """A*sum(k_i log b_i) op 0 with rational k_i  ->  prod(b_i^k_i) op 1."""
        A = self.A
        ls = [t for t in n.free_symbols if A.info.get(t, ('',))[0] == 'log']
        if not ls or self.light:
            return op, n
        try:
            num, den = sp.fraction(sp.together(n))
            P = sp.Poly(sp.expand(num), *ls)
            cs = []
            for m, co in P.terms():
                if sum(m) != 1:
                    return op, n
                cs.append((A.info[ls[m.index(1)]][1], co))
            c0 = cs[0][1]
            ks = [sp.cancel(co / c0) for _, co in cs]
            if not all(k.is_Rational for k in ks):
                return op, n
            c0 = c0 / den
            if A.pos(c0):
                s = 1
            elif A.pos(-c0):
                s = -1
            else:
                return op, n
            out = S.One
            for (b, _), k in zip(cs, ks):
                out *= A.powr(b, k)
            return op, s * (out - 1)
        except (sp.PolynomialError, Unsupported):
            return op, n

    def scan_c(self, c):
        if isinstance(c, bool):
            return
        if c[0] == 'cmp':
            self.scan(c[2])
        else:
            for a in c[1]:
                self.scan_c(a)

    def cond(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if c[0] == 'cmp':
            _, op, d = c
            n, im, den = self.tr(d)
            for k, (z, m) in den.items():
                self.facts[k] = z
            if im is not None:
                if op == '==':
                    return z3.And(n == 0, im == 0)
                if op == '!=':
                    return z3.Or(n != 0, im != 0)
                raise Unsupported('ordering of complex values')
            if op in ('==', '!='):
                return n == 0 if op == '==' else n != 0
            s = zprod([n] + [z for z, m in den.values() if m % 2])
            return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[op]
        sub = [self.cond(a) for a in c[1]]
        if c[0] == 'and':
            return z3.And(sub)
        if c[0] == 'or':
            return z3.Or(sub)
        if c[0] == 'not':
            return z3.Not(sub[0])
        raise Unsupported(c[0])


def zpow(v, n):
    if n == 0:
        return z3.RealVal(1)
    if n == 1:
        return v
    return v**n


def zprod(xs):
    out = None
    for x in xs:
        if z3.is_rational_value(x) and x.as_fraction() == 1:
            continue
        out = x if out is None else out * x
    return z3.RealVal(1) if out is None else out


def dprod(d):
    return zprod([zpow(z, n) for z, n in d.values()])


def relevant(assump, goals, atoms=None):
    """Assumptions connected to the goals through shared symbols (dropping others only weakens)."""
    def syms(c):
        if isinstance(c, bool):
            return set()
        if c.kind == 'cmp':
            out, todo = set(), list(c.args[1].free_symbols)
            while todo:
                x = todo.pop()
                inf = atoms.info.get(x) if atoms is not None else None
                if inf and x not in out:
                    for q in inf[1] if isinstance(inf[1], tuple) else (inf[1],):
                        todo += list(getattr(q, 'free_symbols', ()))
                out.add(x)
            return out
        out = set()
        for a in c.args:
            out |= syms(a)
        return out
    cur = set()
    for g in goals:
        cur |= syms(g)
    rest = [(a, syms(a)) for a in assump]
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for it in rest:
            if it[1] & cur or not it[1]:
                out.append(it[0])
                cur |= it[1]
                changed = True
            else:
                keep.append(it)
        rest = keep
    return out


STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}


def _ordering(c):
    if isinstance(c, bool):
        return False
    if c.kind == 'cmp':
        return c.args[0] not in ('==', '!=')
    return any(_ordering(a) for a in c.args)


MANY_LOGS = 6


def _normal_symbols(A, c, out):
    if isinstance(c, bool):
        return
    if c.kind == 'cmp':
        out |= A.norm(c.args[1]).free_symbols
    else:
        for a in c.args:
            _normal_symbols(A, a, out)


def many_logs(A, conds):
    """Sums of many logarithms are decided as linear terms in the logarithms."""
    out = set()
    for c in conds:
        _normal_symbols(A, c, out)
    return sum(A.info.get(t, ('',))[0] == 'log' for t in out) > MANY_LOGS


def build(atoms, conds, extra_assumptions=True, pick=None, both=False):
    T = Z3T(atoms)
    T.both = both       # keep inequalities between logarithms in both forms
    assump = relevant(atoms.assumptions, conds, atoms) if extra_assumptions else []
    T.light = many_logs(atoms, conds + assump)
    T.mono = not T.light and any(_ordering(c) for c in conds)
    pre_c = [T.prep(c) for c in conds]
    pre_a = [T.prep(c) for c in assump]
    for c in pre_c + pre_a:
        T.scan_c(c)
    zc = [T.cond(c) for c in pre_c]
    za = [T.cond(c) for c in pre_a]
    if T.mono:
        T.pairs()
    nz = [z != 0 for z in T.facts.values() if not z3.is_rational_value(z)]
    return T, zc, za, nz


def solve(cs, timeout=20000, tactic=None):
    import time
    t = time.time()
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set('timeout', int(timeout))
    for c in cs:
        s.add(c)
    r = s.check()
    STATS['queries'] += 1
    STATS[str(r)] += 1
    STATS['time'] += time.time() - t
    return str(r), s


def quick_unsat(atoms, conds, timeout=2000):
    try:
        T, zc, za, nz = build(atoms, conds)
        r, _ = solve(zc + za + nz + T.side, timeout)
        return r == 'unsat'
    except (Unsupported, z3.Z3Exception):
        return False
