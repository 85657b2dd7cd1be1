"""C21: version increments."""
import ast
import os
import types
import numpy as np
import sympy as sp
from symex.engine import Job
from symex.loader import REPO, Rewriter
from symex.sym import Sym
from .common import TRUSTED

PRELOAD = ('bin.utils',)
EXPLANATION = ('unit_incremented (both copies), the release check script and the version bump script are executed on versions '
               'whose parts are symbolic integers. Strings built from version parts are compared character by character over symbolic '
               'digits, so that comparing versions as strings and as numbers are told apart. z3 decides for every '
               'pair of versions that the verdict is the one of the specification.')
BOUNDS = ('release parts from 0 to 99 (two or three parts given), pre-release numbers from 0 to 99, pre-release letters a, b, rc; '
          'no epochs, post, dev or local parts; file reads and git calls of the scripts answer with arbitrary versions')
ASSUMPTIONS = ('the order and the parts of packaging.version are those of PEP 440',
               'git, cat, grep and sed are replaced by recorders (no file is touched)')
LETTERS = ('a', 'b', 'rc')


class Text:
    """A base version as a string."""

    def __init__(self, p, v):
        self.p, self.v = p, v

    def chars(self):
        out = []
        for i, x in enumerate(self.v.release):
            if i:
                out.append('.')
            out += digits(self.p, x)
        return out

    def __str__(self):
        return self.v.text(base=True)

    def split(self, sep=None, n=-1):
        if sep == '.':
            return list(self.v.release)
        raise NotImplementedError

    def cmp(self, o):
        if isinstance(o, str):
            raise NotImplementedError
        a, b = self.chars(), o.chars()
        for x, y in zip(a, b):
            if x == '.' or y == '.':
                if isinstance(x, str) and isinstance(y, str):
                    continue
                return -1 if isinstance(x, str) else 1         # '.' sorts before digits
            if bool(x < y):
                return -1
            if bool(x > y):
                return 1
        return len(a) - len(b)

    def __eq__(self, o):
        if len(self.v.release) != len(o.v.release):
            return False
        return all(bool(x == y) for x, y in zip(self.v.release, o.v.release))

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.cmp(o) < 0

    def __le__(self, o):
        return self.cmp(o) <= 0

    def __gt__(self, o):
        return self.cmp(o) > 0

    def __ge__(self, o):
        return self.cmp(o) >= 0

    __hash__ = None


def digits(p, x):
    x = x if isinstance(x, Sym) else p.S(x)
    if bool(x < 10):
        return [x]
    seen = p.__dict__.setdefault('digits', {})
    if x.e not in seen:
        t = p.var('tens_%d' % len(seen), lo=0, hi=9, hiopen=False, integer=True)
        u = p.var('units_%d' % len(seen), lo=0, hi=9, loopen=False, hiopen=False, integer=True)
        p.assume(10 * t + u == x)
        seen[x.e] = [t, u]
    return seen[x.e]


class Version:
    epoch = 0
    post = dev = local = None
    is_postrelease = is_devrelease = False

    def __init__(self, p, release, pre=None):
        self.p, self.release, self.pre = p, tuple(release), pre
        self.is_prerelease = pre is not None

    def part(self, i):
        return self.release[i] if i < len(self.release) else 0

    major = property(lambda s: s.part(0))
    minor = property(lambda s: s.part(1))
    micro = property(lambda s: s.part(2))
    base_version = property(lambda s: Text(s.p, s))

    def text(self, base=False):
        s = '.'.join(str(x) for x in self.release)
        return s if base or self.pre is None else s + '%s%s' % self.pre

    __str__ = text
    public = property(text)

    def key(self):
        r = [self.part(i) for i in range(3)]
        return tuple(r) + ((1, 0, 0) if self.pre is None else (0, LETTERS.index(self.pre[0]), self.pre[1]))

    def cmp(self, o):
        for x, y in zip(self.key(), o.key()):
            if bool(x < y):
                return -1
            if bool(x > y):
                return 1
        return 0

    def __eq__(self, o):
        return self.cmp(o) == 0

    def __ne__(self, o):
        return self.cmp(o) != 0

    def __lt__(self, o):
        return self.cmp(o) < 0

    def __le__(self, o):
        return self.cmp(o) <= 0

    def __gt__(self, o):
        return self.cmp(o) > 0

    def __ge__(self, o):
        return self.cmp(o) >= 0

    __hash__ = None


class Versions:
    """Symbolic versions with the strings that stand for them."""

    def __init__(self, p):
        self.p, self.table = p, {}
        p.hooks['version'] = self.parse

    def make(self, name, pre, parts=3):
        """(string to hand over, release parts, pre)"""
        p = self.p
        k = {'major': 1., 'minor': 9. if name == 'b' else 10., 'micro': 3. if name == 'b' else 0., 'pre': 0.}
        v = {}
        for q in ('major', 'minor', 'micro')[:parts] + (('pre',) if pre else ()):
            x = p.var('%s_%s' % (name, q), lo=0, hi=99, loopen=False, hiopen=False, sample=k[q], integer=True)
            v[q] = int(round(x)) if p.mode == 'real' else x
        rel = [v[q] for q in ('major', 'minor', 'micro')[:parts]]
        ver = Version(p, rel, (pre, v['pre']) if pre else None)
        if p.mode == 'real':
            return ver.text(), ver
        s = '%s.%s' % (name.upper(), name.upper())
        self.table[s] = ver
        return s, ver

    def parse(self, s):
        if isinstance(s, Text):
            return Version(self.p, s.v.release)
        if isinstance(s, Version):
            return s
        if s in self.table:
            return self.table[s]
        parts = str(s).split('.')
        try:
            out = []
            for q in parts:
                e = sp.sympify(q, locals={str(t['sym']): t['sym'] for n, t in self.p.vars.items() if n != '__choices'})
                out.append(Sym(e))
            return Version(self.p, out)
        except Exception:
            return None


def spec(a, b):
    """a is one increment above b."""
    ra, rb = [a.part(i) for i in range(3)], [b.part(i) for i in range(3)]

    def both(*c):
        r = c[0]
        for x in c[1:]:
            r = r & x
        return r

    def same(i):
        return both(*[ra[j] == rb[j] for j in range(i)]) if i else (ra[0] == ra[0])

    def above(i):
        """release parts above the other's, deciding at part i"""
        return both(same(i), ra[i] > rb[i])
    if a.pre is None and b.pre is None:
        return (both(same(2), ra[2] == rb[2] + 1) | both(same(1), ra[1] == rb[1] + 1, ra[2] == 0)
                | both(ra[0] == rb[0] + 1, ra[1] == 0, ra[2] == 0))
    if a.pre is None:
        return same(3)
    if b.pre is None:
        return (above(0) | above(1) | above(2)) & (a.pre[1] == 0)
    if a.pre[0] == b.pre[0]:
        return same(3) & (a.pre[1] == b.pre[1] + 1)
    if LETTERS.index(a.pre[0]) > LETTERS.index(b.pre[0]):
        return same(3) & (a.pre[1] == 0)
    return ra[0] != ra[0]


def negate(c):
    return not c if isinstance(c, (bool, np.bool_)) else ~c


class FakeOS:
    """Answers the commands of the scripts and records the others."""

    def __init__(self, head, master, readme):
        self.head, self.master, self.readme, self.calls = head, master, readme, []

    def run(self, args, **k):
        args = list(args)
        self.calls.append(args)
        out = ''
        if args[0] == 'cat':
            out = '"""Version file for primpy."""\n\n__version__ = \'%s\'\n' % self.head
        elif args[0] == 'git' and args[1] == 'show':
            out = '"""Version file for primpy."""\n\n__version__ = \'%s\'\n' % self.master
        elif args[0] == 'grep':
            out = ':Version: %s\n' % self.readme
        return types.SimpleNamespace(stdout=out, stderr='', returncode=0)


def script(p, path, fake, argv=('script',), stop=None):
    """Run a script of the repository; (exit code, globals)."""
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src, path)
    sub = types.SimpleNamespace(run=fake.run, PIPE=-1)
    err = types.SimpleNamespace(write=lambda s: None)

    def leave(code=0):
        raise SystemExit(code)
    system = types.SimpleNamespace(stderr=err, stdout=err, exit=leave, argv=list(argv), platform='linux')
    import builtins
    b = dict(vars(builtins))
    inner = builtins.__import__
    if p.mode == 'sym':
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        b.update(p.loader.builtins)
        inner = p.loader.imp

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name == 'subprocess':
            return sub
        if name == 'sys':
            return system
        return inner(name, globals, locals, fromlist, level)
    b['__import__'] = imp
    b['print'] = lambda *a, **k: None
    g = {'__builtins__': b, '__name__': '__main__'}
    if p.mode == 'sym':
        m = p.mod('bin.utils')
        g.update({k: v for k, v in vars(m).items() if k.startswith('__sx_')})
    try:
        exec(compile(tree, path, 'exec'), g)
        return 0, g
    except SystemExit as e:
        return e.code, g


def increment(p, pa, pb, parts, copy):
    V = Versions(p)
    a, va = V.make('a', pa, parts[0])
    b, vb = V.make('b', pb, parts[1])
    if copy == 'utils':
        f = p.mod('bin.utils').unit_incremented
    else:
        # the copy in the script
        fake = FakeOS(a, b, a)
        code, g = script(p, '.github/workflows/check_version.py', fake)
        s = spec(va, vb)
        p.true('release check', s if code in (0, None) else negate(s))
        return
    got = bool(f(a, b))
    s = spec(va, vb)
    p.true('accepted exactly when incremented', s if got else negate(s))


def readme(p):
    """The version has to be the one of the README, too."""
    V = Versions(p)
    pre = p.choice('pre', [None, 'rc'])
    a, va = V.make('a', pre)
    b, vb = V.make('b', None)
    c, vc = V.make('c', p.choice('pre_c', [None, 'rc']))
    code, g = script(p, '.github/workflows/check_version.py', FakeOS(a, b, c))
    if (pre is None) != (vc.pre is None):
        p.true('different versions', code not in (0, None))
        return
    same = (va.major == vc.major) & (va.minor == vc.minor) & (va.micro == vc.micro)
    if pre:
        same = same & (va.pre[1] == vc.pre[1])
    s = spec(va, vb) & same
    p.true('release check with README', s if code in (0, None) else negate(s))


def bump(p):
    V = Versions(p)
    pre = p.choice('pre', [None, 'rc'])
    a, va = V.make('a', pre)
    kind = p.choice('kind', [None, 'micro', 'minor', 'major'])
    fake = FakeOS(a, a, a)
    code, g = script(p, 'bin/bump_version.py', fake, ('bump_version.py',) + ((kind,) if kind else ()))
    p.true('completes', code in (0, None))
    seds = [c for c in fake.calls if c[0] == 'sed']
    p.eq('files', sorted(c[-1] for c in seds), ['README.rst', 'primpy/__version__.py'])
    i = {None: 2, 'micro': 2, 'minor': 1, 'major': 0}[kind]
    want = [va.part(j) + (1 if j == i else 0) if j <= i else 0 for j in range(3)]
    for c in seds:
        e = [x for x in c if x.startswith('s/')][0]
        _, old, new, flag = e.split('/')
        p.eq('old version', old, a.replace('.', r'\.'))
        got = V.parse(new) if p.mode == 'sym' else Version(p, [int(x) for x in new.split('.')])
        for j in range(3):
            p.eq('part %d' % j, got.part(j), want[j], scale=1.)


def jobs(tier):
    out = [Job('README', readme, max_paths=400), Job('bump', bump)]
    pres = (None,) + LETTERS
    for copy in 'utils', 'script':
        for pa in pres:
            for pb in pres:
                for parts in ((3, 3), (3, 2), (2, 3)):
                    out.append(Job('%s %s -> %s parts %d %d' % (copy, pb, pa, parts[1], parts[0]), increment,
                                   dict(pa=pa, pb=pb, parts=parts, copy=copy), max_paths=400))
    return out
