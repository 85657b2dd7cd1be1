"""Path exploration, obligations, solver verdicts and replay on the real code."""
import itertools
import json
import math
import os
import random
import time
import traceback
import warnings
import numpy as np
import sympy as sp
import mpmath
import z3
from . import sym as _sym
from . import shim
from . import tr
from .sym import Sym, SymBool, Unsupported, to_expr, band
from .loader import Loader, real as real_module

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Infeasible(BaseException):
    """This path's assumptions contradict each other."""


class Cut(BaseException):
    """Path bound reached."""


class SkipReal(BaseException):
    """Concrete inputs outside the harness's preconditions."""


class Obligations(list):
    """Obligations of one path; repeated names are numbered."""

    def append(self, o):
        names = self.__dict__.setdefault('names', {})
        n = names[o['name']] = names.get(o['name'], 0) + 1
        if n > 1:
            o['name'] = '%s #%d' % (o['name'], n)
        super().append(o)


class Path:
    """One symbolic execution path."""

    mode = 'sym'

    def __init__(self, job, prefix):
        self.job = job
        self.prefix = prefix
        self.decisions = []
        self.atoms = tr.Atoms()
        self.vars = {}
        self.obl = Obligations()
        self.notes = set()
        self.warnings = []
        self.hooks = {}
        self.nfresh = 0
        self.alternatives = []
        self.fresh_syms = {}
        self.known = {}
        self.loader = job.loader

    # -- inputs -------------------------------------------------------------------------------
    def var(self, name, lo=None, hi=None, sample=None, loopen=True, hiopen=True, **asm):
        if lo is not None and lo >= 0 and 'positive' not in asm:
            if lo > 0 or loopen:
                asm['positive'] = True
            else:
                asm['nonnegative'] = True
        if not asm:
            asm = {'real': True}
        s = sp.Symbol(name, **asm)
        v = Sym(s)
        new = name not in self.vars
        self.vars[name] = dict(sym=s, lo=lo, hi=hi, sample=sample, asm=asm)
        if new:
            if lo is not None and not (lo == 0):
                self.assume(v > lo if loopen else v >= lo)
            if hi is not None:
                self.assume(v < hi if hiopen else v <= hi)
        return v

    def pos(self, name, sample=None, hi=None, lo=0):
        return self.var(name, lo=lo, hi=hi, sample=sample)

    def real(self, name, lo=None, hi=None, sample=None):
        return self.var(name, lo=lo, hi=hi, sample=sample)

    def int_(self, name, lo, hi, sample=None):
        """Small integer input: the choice is enumerated by forking."""
        return self.choice(name, list(range(lo, hi + 1)))

    def choice(self, name, options):
        i = self.decide(len(options), 'choice:' + name)
        self.vars.setdefault('__choices', {})[name] = options[i]
        return options[i]

    def fresh(self, name, **asm):
        self.nfresh += 1
        s = sp.Symbol('%s@%d' % (name, self.nfresh), **(asm or {'real': True}))
        self.fresh_syms[s.name] = s
        return Sym(s)

    def sample_of(self, name, v):
        pass

    # -- control ------------------------------------------------------------------------------
    def decide(self, n, why):
        k = len(self.decisions)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = 0
            for alt in range(1, n):
                self.alternatives.append(self.decisions + [alt])
        self.decisions.append(c)
        if len(self.decisions) > self.job.max_decisions:
            raise Cut('more than %d decisions' % self.job.max_decisions)
        return c

    def branch(self, c):
        """Truth of a symbolic condition: follow the prefix or fork on solver-feasible sides."""
        key = c.args if c.kind == 'cmp' else None
        if key is not None and key in self.known:
            return self.known[key]
        k = len(self.decisions)
        if k < len(self.prefix):
            v = bool(self.prefix[k])
        else:
            ft = self.feasible(c)
            ff = self.feasible(~c) if ft else True
            if not ft and not ff:
                raise Infeasible()
            v = ft
            if ft and ff:
                self.alternatives.append(self.decisions + [0])
        self.decisions.append(1 if v else 0)
        if len(self.decisions) > self.job.max_decisions:
            raise Cut('more than %d decisions' % self.job.max_decisions)
        self.atoms.assume(c if v else ~c)
        if key is not None:
            self.known[key] = v
            self.known[(~c).args] = not v
        return v

    def feasible(self, c):
        try:
            return not tr.quick_unsat(self.atoms, [c], timeout=self.job.branch_timeout)
        except RecursionError:
            return True

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Infeasible()
            return
        self.atoms.assume(c)

    def note(self, s):
        self.notes.add(s)

    def mod(self, name):
        return self.loader.load(name)

    def S(self, x):
        return Sym(to_expr(x))

    # -- symbolic calculus for oracles ----------------------------------------------------------
    def diff(self, e, x, n=1):
        e = to_expr(e)
        return Sym(sp.diff(e, to_expr(x), n))

    def subs(self, e, x, v):
        return Sym(to_expr(e).subs(to_expr(x), to_expr(v)))

    def fn(self, f, *a):
        """sympy-level function for oracles."""
        return Sym(f(*[to_expr(v) for v in a]))

    # -- obligations ----------------------------------------------------------------------------
    def eq(self, name, a, b, **kw):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            aa, bb = np.shape(a), np.shape(b)
            if aa != bb:
                self.obl.append(dict(name=name, kind='struct', why='shape %s != %s' % (aa, bb), kw=kw))
                return
            A, B = shim.objarr(a), shim.objarr(b)
            for i in np.ndindex(A.shape):
                self.eq('%s[%s]' % (name, ','.join(map(str, i))), A[i], B[i], **kw)
            return
        if not (_sym.is_num(a) and _sym.is_num(b)):
            same = False
            if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)):
                same = type(a) is type(b) and a == b
            if same:
                self.obl.append(dict(name=name, kind='triv', kw=kw))
            else:
                self.obl.append(dict(name=name, kind='struct', kw=kw,
                                     why='%r is not %r' % (str(a)[:60], str(b)[:60])))
            return
        a, b = Sym(to_expr(a)), Sym(to_expr(b))
        na, nb = not a.isfinite(), not b.isfinite()
        if na or nb:
            if a.e == b.e:
                self.obl.append(dict(name=name, kind='triv', kw=kw))
            else:
                self.obl.append(dict(name=name, kind='struct', kw=kw,
                                     why='%s is not %s' % (str(a)[:60], str(b)[:60])))
            return
        self.obl.append(dict(name=name, kind='eq', a=a, b=b, nassume=len(self.atoms.assumptions),
                             kw=kw))

    def true(self, name, c, **kw):
        """The condition must hold."""
        if isinstance(c, (bool, np.bool_)):
            self.obl.append(dict(name=name, kind='triv' if c else 'struct', why='false', kw=kw))
            return
        self.obl.append(dict(name=name, kind='cond', c=c, nassume=len(self.atoms.assumptions),
                             kw=kw))

    def raises(self, name, exc, f):
        """Run f; the obligation is that it raises `exc`."""
        try:
            f()
        except exc:
            self.obl.append(dict(name=name, kind='triv', kw={}))
            return True
        except Exception as e:
            self.obl.append(dict(name=name, kind='struct', why='raised %s' % type(e).__name__, kw={}))
            return False
        self.obl.append(dict(name=name, kind='struct', why='did not raise', kw={}))
        return False

    def outcome(self, f):
        """('ok', value) or ('raise', exception class name)."""
        try:
            return 'ok', f()
        except Unsupported:
            raise
        except Exception as e:
            return 'raise', type(e).__name__


class RealPath:
    """The same harness over the unmodified code with concrete floats."""

    mode = 'real'

    def __init__(self, job, values, choices):
        self.job = job
        self.values = values
        self.choices = choices
        self.vars = {}
        self.rec = {}
        self.notes = set()
        self.warnings = []
        self.hooks = {}
        self.order = []

    def var(self, name, lo=None, hi=None, sample=None, **asm):
        asm = {k: v for k, v in asm.items() if k not in ('loopen', 'hiopen')}
        v = self.values.get(name)
        if v is None:
            v = sample
        if v is None:
            v = 1.2345 if (lo is None or lo < 1.2345) and (hi is None or hi > 1.2345) else \
                (lo + hi) / 2 if lo is not None and hi is not None else \
                (lo * 1.37 + 0.1 if lo is not None else hi - abs(hi) * 0.3 - 0.1)
        v = float(v)
        if lo is not None and not v >= lo - 1e-300 or hi is not None and not v <= hi:
            raise SkipReal()
        self.values[name] = v
        return v

    def pos(self, name, sample=None, hi=None, lo=0):
        return self.var(name, lo=lo, hi=hi, sample=sample)

    def real(self, name, lo=None, hi=None, sample=None):
        return self.var(name, lo=lo, hi=hi, sample=sample)

    def int_(self, name, lo, hi, sample=None):
        return self.choice(name, list(range(lo, hi + 1)))

    def choice(self, name, options):
        if name in self.choices:
            return self.choices[name]
        self.choices[name] = options[0]
        return options[0]

    def fresh(self, name, **asm):
        return float('nan')

    def assume(self, c):
        if isinstance(c, float) and c != c:
            return
        if not bool(c):
            raise SkipReal()

    def note(self, s):
        pass

    def mod(self, name):
        return real_module(name)

    def S(self, x):
        return x

    def diff(self, e, x, n=1):
        return float('nan')

    def subs(self, e, x, v):
        return float('nan')

    def fn(self, f, *a):
        try:
            return float(f(*[sp.Float(v, 30) for v in a]))
        except Exception:
            return float('nan')

    def eq(self, name, a, b, **kw):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            if np.shape(a) != np.shape(b):
                self.put(name, ('struct', 'shape %s != %s' % (np.shape(a), np.shape(b))))
                return
            A, B = shim.objarr(a), shim.objarr(b)
            for i in np.ndindex(A.shape):
                self.eq('%s[%s]' % (name, ','.join(map(str, i))), A[i], B[i], **kw)
            return
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if _sym.is_num(a) and _sym.is_num(b) and not isinstance(a, (bool, np.bool_)):
            self.put(name, ('eq', a, b))
        else:
            self.put(name, ('ok',) if type(a) is type(b) and a == b
                     else ('struct', '%r is not %r' % (a, b)))

    def put(self, name, v):
        n = 1
        base = name
        while name in self.rec:
            n += 1
            name = '%s #%d' % (base, n)
        self.rec[name] = v
        self.order.append(name)

    def true(self, name, c, **kw):
        self.put(name, ('cond', bool(c), kw))

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            self.put(name, ('ok',))
            return True
        except Exception as e:
            self.put(name, ('struct', 'raised %s: %s' % (type(e).__name__, e)))
            return False
        self.put(name, ('struct', 'did not raise'))
        return False

    def outcome(self, f):
        try:
            return 'ok', f()
        except Exception as e:
            return 'raise', type(e).__name__


def mp_eval(e, subs, prec=60):
    """High-precision value of a term; None when it has unassigned symbols."""
    e = to_expr(e)
    if e.has(sp.Symbol('interp')):
        return None
    free = e.free_symbols - set(subs)
    if free:
        return None
    v = e.subs(subs)
    try:
        r = sp.N(v, prec)
    except Exception:
        return None
    if r.has(sp.nan, sp.zoo, sp.oo, -sp.oo):
        return None
    if r.is_number:
        try:
            return complex(r) if not r.is_real else mpmath.mpf(str(sp.re(r)))
        except Exception:
            return None
    return None


class Job:
    """A named harness with its bounds."""

    def __init__(self, name, fn, kwargs=None, max_paths=64, max_decisions=60, timeout=20000,
                 branch_timeout=1500, rtol=1e-6, validate=True, tries=40, expect_paths=None,
                 consts=True, vtol=1e-6, loader=None, fallback=None):
        self.name = name
        self.fn = fn
        self.kwargs = kwargs or {}
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.timeout = timeout
        self.branch_timeout = branch_timeout
        self.rtol = rtol
        self.vtol = vtol
        self.validate = validate
        self.tries = tries
        self.loader = loader
        self.fallback = fallback


def constants_subs():
    """Values of the library constants left symbolic in the encoding."""
    import scipy.constants as sc
    out = {}
    for n, v in (('hbar', sc.hbar), ('c', sc.c), ('G', sc.G), ('kB', sc.k), ('e', sc.e),
                 ('parsec', sc.parsec)):
        out[sp.Symbol('const_' + n, positive=True)] = sp.Float(float(v), 100)
    return out


class Runner:
    def __init__(self, pid, tier, loader, out_dir):
        self.pid, self.tier, self.loader, self.out = pid, tier, loader, out_dir

    def run_job(self, job):
        t0 = time.time()
        job.loader = job.loader or self.loader
        res = dict(job=job.name, paths=0, obligations=[], errors=[], violations=[], notes=set(),
                   validated=0, warns=0, cut=0, reach=0, unreach=0)
        st0 = dict(tr.STATS)
        stack = [[]]
        seen_names = set()
        failing = []
        npath = 0
        while stack:
            prefix = stack.pop()
            npath += 1
            if npath > job.max_paths:
                res['errors'].append('more than %d paths' % job.max_paths)
                break
            P = Path(job, prefix)
            _sym.CURRENT = P
            exc = None
            try:
                job.fn(P, **job.kwargs)
            except Infeasible:
                stack.extend(P.alternatives)
                _sym.CURRENT = None
                continue
            except Cut as e:
                res['errors'].append('path bound: %s' % e)
                stack.extend(P.alternatives)
                _sym.CURRENT = None
                continue
            except Exception as e:
                exc = e
                P.tb = traceback.format_exc()
            finally:
                _sym.CURRENT = None
            stack.extend(P.alternatives)
            res['paths'] += 1
            res['notes'] |= P.notes
            if exc is not None:
                failing.append((P, dict(name='exception', kind='exc', exc=exc, kw={}), None))
            # vacuity twin: the end of the path must be reachable
            tw = self.twin(P, job)
            if tw == 'unsat':
                if exc is not None:
                    failing.pop()
                res['unreach'] += 1
                continue
            res['reach'] += tw == 'sat'
            for o in P.obl:
                seen_names.add(o['name'])
                t = time.time()
                verdict, model = self.discharge(P, o, job)
                res['obligations'].append((o['name'], verdict, round(time.time() - t, 3)))
                if verdict in ('sat', 'struct'):
                    failing.append((P, o, model))
                elif verdict == 'unknown':
                    failing.append((P, o, None))
            if job.validate and exc is None:
                v = self.validate(P, job)
                if v is True:
                    res['validated'] += 1
                elif v:
                    res['errors'].append('encoding does not reproduce the real code: ' + v)
        if not seen_names and not failing:
            res['errors'].append('no obligation was reached (vacuous harness)')
        if not res['reach'] and not res['validated'] and not failing:
            res['errors'].append('reachability twin not satisfied on any path')
        done = set()
        for P, o, model in failing:
            if o['name'] in done:
                continue
            r = self.replay(P, o, model, job)
            if r is not None:
                done.add(o['name'])
                res['violations'].append(r)
        for P, o, model in failing:
            if o['name'] not in done:
                why = dict(exc='exception %r' % (o.get('exc'),), struct=o.get('why')).get(
                    o['kind'], 'candidate')
                tbk = ''
                if o['kind'] == 'exc':
                    tbk = '\n' + getattr(P, 'tb', '')[-1500:]
                res['errors'].append('%s: solver verdict not "holds" (%s) and not reproduced on the '
                                     'real code%s' % (o['name'], why, tbk))
        res['stats'] = {k: tr.STATS[k] - st0[k] for k in tr.STATS}
        res['wall'] = time.time() - t0
        res['notes'] = sorted(res['notes'])
        return res

    # -- solver ---------------------------------------------------------------------------------
    def twin(self, P, job):
        try:
            T, zc, za, nz = tr.build(P.atoms, list(P.atoms.assumptions), extra_assumptions=False)
            r, s = tr.solve(zc + nz + T.side, 3000)
            return r
        except (Unsupported, z3.Z3Exception, RecursionError):
            return 'unknown'

    def discharge(self, P, o, job):
        if o['kind'] == 'triv':
            tr.STATS['queries'] += 1
            s = z3.Solver()
            s.add(z3.BoolVal(False))
            tr.STATS[str(s.check())] += 1
            return 'unsat', None
        if o['kind'] == 'struct':
            return 'struct', None
        if o['kind'] == 'eq':
            d = to_expr(o['a']) - to_expr(o['b'])
            if d.is_number and not d.free_symbols:
                # closed numeric term: still decided over the atoms
                pass
            goal = SymBool('cmp', ('!=', d))
        else:
            goal = ~o['c'] if isinstance(o['c'], SymBool) else (not o['c'])
        return self.decide(P, [goal], job, o['kw'].get('timeout', job.timeout))

    def decide(self, P, goals, job, timeout):
        A = P.atoms
        last = None
        try:
            # identities rarely need the path condition: try without it first
            T, zc, za, nz = tr.build(A, goals, extra_assumptions=False)
            r, s = tr.solve(zc + nz + T.side, min(4000, timeout))
            if r == 'unsat':
                return r, None
            r1, s1, T1 = r, s, T
            if A.assumptions:
                T, zc, za, nz = tr.build(A, goals)
                r, s = tr.solve(zc + za + nz + T.side, timeout)
                if r == 'unsat':
                    return r, None
                if T.mono and any(i[0] == 'log' for i in A.info.values()):
                    T2, zc2, za2, nz2 = tr.build(A, goals, both=True)
                    r2, s2 = tr.solve(zc2 + za2 + nz2 + T2.side, timeout)
                    if r2 == 'unsat':
                        return r2, None
            if r == 'unknown':
                r2 = self.reduce(P, goals, timeout)
                if r2 == 'unsat':
                    return r2, None
                for tac in ('qfnra-nlsat', 'qfnra'):
                    rr, ss = tr.solve(zc + za + nz + T.side, timeout, tac)
                    if rr != 'unknown':
                        r, s = rr, ss
                        break
            elif r == 'sat' and len(goals) == 1:
                r2 = self.reduce(P, goals, timeout)
                if r2 == 'unsat':
                    return r2, None
            if r == 'sat':
                return 'sat', self.model(P, T, s)
            return r, None
        except (Unsupported, z3.Z3Exception, RecursionError) as e:
            o = 'unsupported: %s' % e
            P.note(o)
            return 'unknown', None

    def reduce(self, P, goals, timeout):
        """Second attempt for equalities: eliminate root definitions, then ask the solver again."""
        g = goals[0]
        if not isinstance(g, SymBool) or g.kind != 'cmp' or g.args[0] not in ('!=', '=='):
            return None
        try:
            A = P.atoms
            e = A.norm(g.args[1])
            for _ in range(6):
                n, d = sp.fraction(sp.together(e))
                n = sp.expand(n)
                if n == 0:
                    break
                # replace b**k (k>=1) for named b by its definition
                named = [s for s in n.free_symbols if A.info.get(s, ('',))[0] == 'named']
                if not named:
                    break
                new = n
                for b in named:
                    dfn = A.info[b][1]
                    out = S_zero
                    for term in sp.Add.make_args(sp.expand(new)):
                        c, rest = term.as_independent(b)
                        k = rest.as_base_exp()[1] if rest != 1 else sp.S.Zero
                        q = sp.floor(k)
                        out += c * dfn**q * b**(k - q)
                    new = sp.expand(out) if sp.fraction(sp.together(out))[1] == 1 else out
                if new == n:
                    break
                e = A.norm(new)
            n, d = sp.fraction(sp.together(e))
            n = sp.expand(n)
            T = tr.Z3T(A)
            T.scan(n)
            re, im, den = T.tr(n)
            goal = re != 0 if im is None else z3.Or(re != 0, im != 0)
            r, s = tr.solve([goal] + T.side, timeout)
            return r
        except Exception:
            return None

    def model(self, P, T, s):
        m = s.model()
        vals = {}
        for sy, v in T.zv.items():
            mv = m.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(mv):
                    mv = mv.approx(20)
                f = float(mv.as_fraction())
                D = T.roots.get(sy, 1)
                vals[sy.name] = f**D
            except Exception:
                pass
        return vals

    # -- replay -----------------------------------------------------------------------------------
    def run_real(self, job, values, choices):
        R = RealPath(job, dict(values), dict(choices))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                try:
                    job.fn(R, **job.kwargs)
                except SkipReal:
                    return None, 'skip'
                except Exception as e:
                    R.tb = traceback.format_exc()
                    return R, e
        return R, None

    def subs_for(self, P, values):
        subs = dict(constants_subs())
        for n, d in P.vars.items():
            if n == '__choices':
                continue
            if n in values:
                f = float(values[n])
                subs[d['sym']] = sp.Integer(int(f)) if f == int(f) and abs(f) < 1e6 \
                    else sp.Float(f, 100)
        # the generic element of a grid may be any
        for n, y in P.fresh_syms.items():
            if n.startswith('t_grid'):
                subs.setdefault(y, sp.Rational(37, 100))
        return subs

    def assumptions_hold(self, P, subs):
        """True / False / None (cannot tell)."""
        def ev(c):
            if isinstance(c, (bool, np.bool_)):
                return bool(c)
            if c.kind == 'cmp':
                op, d = c.args
                v = mp_eval(d, subs, 40)
                if v is None:
                    return None
                if isinstance(v, complex):
                    return None
                if op in ('==', '!='):
                    if mpmath.mpf(10)**-25 <= abs(v) < mpmath.mpf(10)**-14:
                        return None         # equal up to the rounding of the input
                    z = abs(v) < mpmath.mpf(10)**-25
                    return z if op == '==' else not z
                return bool(_sym._OPS[op](v, 0))
            rs = [ev(a) for a in c.args]
            if c.kind == 'and':
                return False if False in rs else (None if None in rs else True)
            if c.kind == 'or':
                return True if True in rs else (None if None in rs else False)
            return None if rs[0] is None else not rs[0]
        out = True
        for a in P.atoms.assumptions:
            r = ev(a)
            if r is False:
                return False
            if r is None:
                out = None
        return out

    def path_model(self, P):
        """Some input that takes this path."""
        try:
            T, zc, za, nz = tr.build(P.atoms, list(P.atoms.assumptions), extra_assumptions=False)
            r, s = tr.solve(zc + nz + T.side, 3000)
            return self.model(P, T, s) if r == 'sat' else None
        except (Unsupported, z3.Z3Exception, RecursionError):
            return None

    def candidates(self, P, model, n):
        rng = random.Random(SEED)
        names = [k for k in P.vars if k != '__choices']
        # inputs which the path fixes to a single value
        syms = {d['sym']: k for k, d in P.vars.items() if k != '__choices'}
        pinned = {}
        for a in P.atoms.assumptions:
            if isinstance(a, SymBool) and a.kind == 'cmp' and a.args[0] == '==':
                e = sp.sympify(a.args[1])
                free = list(e.free_symbols)
                if len(free) == 1 and free[0] in syms and e.is_polynomial(free[0]) and \
                        sp.degree(e, free[0]) == 1:
                    x = free[0]
                    pinned[syms[x]] = float(-e.coeff(x, 0) / e.coeff(x, 1))
        base = {}
        for k in names:
            d = P.vars[k]
            base[k] = d['sample']
        if model:
            m = {k: v for k, v in model.items() if k in names}
            if m:
                m.update(pinned)
                yield m
                yield {**{k: v for k, v in base.items() if v is not None}, **m}
        yield {**{k: v for k, v in base.items() if v is not None}, **pinned}
        for i in range(n):
            c = {}
            w = .05 if i % 3 == 2 else 1            # some stay close to the sample point
            for k in names:
                d = P.vars[k]
                lo, hi, s = d['lo'], d['hi'], d['sample']
                if s is None:
                    s = 1.0
                if lo is not None and hi is not None:
                    c[k] = float(lo) + (float(hi) - float(lo)) * rng.random() if w == 1 else float(s)
                elif lo is not None and lo >= 0:
                    c[k] = float(lo) + abs(s - float(lo) or 1) * math.exp(w * rng.uniform(-2, 2))
                elif d['asm'].get('positive'):
                    c[k] = abs(s or 1) * math.exp(w * rng.uniform(-2, 2))
                else:
                    c[k] = (s or 1) * math.exp(w * rng.uniform(-1.5, 1.5)) * (rng.choice((1, 1, -1)) if w == 1 else 1)
            if names and model and i % 2:
                for k in rng.sample(names, max(1, len(names) // 2)):
                    if k in model and abs(model[k]) < 1e6:
                        c[k] = model[k]
            c.update(pinned)
            yield c

    def extremes(self, P):
        """Inputs in which several quantities are far smaller or larger than at the sample point."""
        rng = random.Random(SEED + 1)
        names = [k for k in P.vars if k != '__choices']
        free = [k for k in names if P.vars[k]['hi'] is None and not P.vars[k]['lo']]
        base = {k: P.vars[k]['sample'] for k in names if P.vars[k]['sample'] is not None}
        for f in (1e-3, 1e-6, 1e3):
            for i in range(3):
                c = dict(base)
                for k in free:
                    if not i or rng.random() < .5:
                        c[k] = base.get(k, 1.) * f * rng.uniform(.5, 2)
                yield c

    def mismatch(self, a, b, rtol, scale=0.0):
        try:
            a, b = complex(a), complex(b)
        except Exception:
            return True
        if a != a and b != b:
            return False
        if a != a or b != b:
            return True
        if a == b:
            return False
        return abs(a - b) > rtol * max(abs(a), abs(b), scale)

    def replay(self, P, o, model, job):
        """Reproduce a candidate on the unmodified code; None when it does not reproduce."""
        choices = P.vars.get('__choices', {})
        custom = o['kw'].get('replay')
        if model is None:
            model = self.path_model(P)
        for vals in itertools.chain(self.candidates(P, model, job.tries), self.extremes(P)):
            try:
                vals = {k: float(v) for k, v in vals.items()}
            except Exception:
                continue
            if custom is not None:
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        r = custom({**vals, **choices})
                except Exception as e:
                    r = ('raised %r' % e) if o['kw'].get('exc_is_violation') else None
                if r:
                    return self.record(P, o, job, vals, choices, str(r))
                continue
            subs = self.subs_for(P, vals)
            hold = self.assumptions_hold(P, subs)
            if hold is False:
                continue
            R, err = self.run_real(job, vals, choices)
            if R is None:
                continue
            if o['kind'] == 'exc':
                if isinstance(err, Exception) and type(err).__name__ == type(o['exc']).__name__ or \
                        isinstance(err, Exception) and not isinstance(o['exc'], Unsupported):
                    return self.record(P, o, job, R.values, choices,
                                       'raised %s: %s' % (type(err).__name__, err))
                if not isinstance(err, Exception):
                    # real code ran: look for another failing obligation there
                    bad = self.scan_real(P, R, job)
                    if bad:
                        return self.record(P, o, job, R.values, choices, bad)
                continue
            if isinstance(err, Exception):
                return self.record(P, o, job, R.values, choices,
                                   'raised %s: %s' % (type(err).__name__, err))
            rec = R.rec.get(o['name'])
            if rec is None:
                continue
            if o['kind'] == 'struct':
                if rec[0] == 'struct':
                    return self.record(P, o, job, R.values, choices, rec[1])
                if rec[0] == 'cond' and rec[1] is False:
                    return self.record(P, o, job, R.values, choices, 'condition is false')
                if rec[0] == 'eq' and self.mismatch(rec[1], rec[2], job.rtol):
                    return self.record(P, o, job, R.values, choices, 'got %r, expected %r'
                                       % (rec[1], rec[2]))
                continue
            if o['kind'] == 'cond':
                if rec[0] == 'cond' and rec[1] is False:
                    return self.record(P, o, job, R.values, choices, 'condition is false')
                continue
            if rec[0] == 'struct':
                return self.record(P, o, job, R.values, choices, rec[1])
            if rec[0] != 'eq':
                continue
            subs = self.subs_for(P, R.values)
            ma, mb = mp_eval(o['a'], subs), mp_eval(o['b'], subs)
            got, exp = rec[1], rec[2]
            expn = exp
            if isinstance(exp, float) and exp != exp and mb is not None:
                expn = mb
            elif mb is not None and not isinstance(mb, complex):
                expn = mb
            elif mb is not None:
                expn = mb
            if expn is None or (isinstance(expn, float) and expn != expn):
                continue
            if ma is not None and mb is not None:
                if not self.mismatch(ma, mb, 1e-9, o['kw'].get('scale', 0.0) * 1e-3):
                    # the encoding agrees here; a real mismatch would have to come from floats
                    if not (self.mismatch(got, expn, 1e-3, o['kw'].get('scale', 0.0)) and
                            self.mismatch(got, ma, 1e-3)):
                        continue
                    continue
            if self.mismatch(got, expn, o['kw'].get('rtol', job.rtol), o['kw'].get('scale', 0.0)):
                return self.record(P, o, job, R.values, choices,
                                   'got %s, expected %s' % (got, mpmath.nstr(expn, 17)
                                                            if not isinstance(expn, (float, complex))
                                                            else expn))
        return None

    def scan_real(self, P, R, job):
        """Any obligation that plainly fails in a real run (used when the encoding gave up)."""
        for n, rec in R.rec.items():
            if rec[0] == 'struct':
                return '%s: %s' % (n, rec[1])
            if rec[0] == 'cond' and rec[1] is False:
                return '%s: condition is false' % n
            if rec[0] == 'eq' and self.mismatch(rec[1], rec[2], 1e-4):
                b = rec[2]
                if isinstance(b, float) and b != b:
                    continue
                return '%s: got %r, expected %r' % (n, rec[1], rec[2])
        return None

    def record(self, P, o, job, values, choices, why):
        return dict(property=self.pid, job=job.name, obligation=o['name'], values=dict(values),
                    choices={k: (v if isinstance(v, (int, float, str, bool, type(None))) else repr(v))
                             for k, v in choices.items()}, why=str(why)[:500])

    # -- encoding validation --------------------------------------------------------------------
    def validate(self, P, job):
        """Push a concrete input through both the encoding and the real code."""
        names = [k for k in P.vars if k != '__choices']
        choices = P.vars.get('__choices', {})
        tried = 0
        for vals in itertools.islice(self.candidates(P, None, 12), 13):
            subs = self.subs_for(P, vals)
            # unsampled variables get the RealPath defaults
            R, err = self.run_real(job, vals, choices)
            if R is None:
                continue
            subs = self.subs_for(P, R.values)
            if self.assumptions_hold(P, subs) is not True:
                continue
            if err is not None:
                return '%s raised %r on %s' % (job.name, err, R.values)
            n = 0
            for o in P.obl:
                rec = R.rec.get(o['name'])
                if rec is None or rec[0] != 'eq' or o['kind'] != 'eq':
                    continue
                ma = mp_eval(o['a'], subs, 30)
                if ma is None:
                    continue
                tried += 1
                sc = o['kw'].get('scale', 0.0)
                if self.mismatch(ma, rec[1], o['kw'].get('vtol', job.vtol), max(sc, 1e-9)):
                    if o['kw'].get('novalidate'):
                        continue
                    mb = mp_eval(o['b'], subs, 30)
                    if mb is not None and not isinstance(mb, complex) and \
                            abs(ma - mb) < 1e-9 * max(abs(ma), abs(mb)) and \
                            abs(complex(rec[1]) - complex(ma)) > 1e-3 * abs(complex(ma)):
                        return '%s at %s: encoding %s, real %s' % (o['name'], R.values, ma, rec[1])
                    if abs(complex(rec[1]) - complex(ma)) > 1e-3 * max(abs(complex(ma)), sc):
                        return '%s at %s: encoding %s, real %s' % (o['name'], R.values, ma, rec[1])
                else:
                    n += 1
            if n:
                return True
            if not any(o['kind'] == 'eq' for o in P.obl):
                bad = [k for k, r in R.rec.items() if r[0] == 'struct' or
                       (r[0] == 'cond' and r[1] is False)]
                if not bad and R.rec:
                    return True
                return None
        return None


S_zero = sp.S.Zero
