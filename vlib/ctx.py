"""The harness interface, shared by symbolic and concrete runs, and its symbolic implementation."""
import inspect
import io
import logging
import math
import random as _random
import sys
import types
import zlib
from fractions import Fraction as Fr

import numpy as np

from . import npshim, stubs, sym
from .loader import Loader
from .stubs import Stop
from .sym import Abort, Sym, SymBool, band, bnot, bor, compare, is_nonfinite, lift, padd

MODULES = ['oneka.model', 'oneka.probabilityfield', 'oneka.capturezone', 'oneka.utilities', 'oneka.stochastic',
           'oneka.deterministic', 'oneka.visualize', 'oneka.archive', 'oneka.oneka']


def constants(M):
    """the entries of a matrix as fractions, or None when one is not a constant"""
    out = []
    for row in M:
        r = []
        for v in row:
            q = lift(v)
            q = q.concrete() if q is not None else None
            if q is None:
                return None
            r.append(Fr(q))
        out.append(r)
    return out


def inverse(M):
    """exact inverse of a matrix of fractions, None when singular"""
    n = len(M)
    A = [list(r) + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for k in range(n):
        i = next((i for i in range(k, n) if A[i][k]), None)
        if i is None:
            return None
        A[k], A[i] = A[i], A[k]
        d = A[k][k]
        A[k] = [v / d for v in A[k]]
        for i in range(n):
            if i != k and A[i][k]:
                d = A[i][k]
                A[i] = [v - d * w for v, w in zip(A[i], A[k])]
    return [r[n:] for r in A]


def exact(M):
    r = np.empty((len(M), len(M[0])), dtype=object)
    for i, j in np.ndindex(*r.shape):
        r[i, j] = lift(M[i][j])
    return r


class LogCapture(logging.Handler):
    def __init__(self, sink):
        logging.Handler.__init__(self, 0)
        self.sink = sink

    def emit(self, rec):
        self.sink.append((rec.levelname, rec.getMessage()))


class BaseCtx:
    symbolic = False

    def __init__(self, params):
        self.params = params
        self.counts = {}
        self.plots = []
        self.smooth_calls = []
        self.draws = []
        self.logs = []
        self.undo = []
        self.random = stubs.RandomStub(self)
        self.labels = []

    def count(self, k):
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        return n

    def nfresh(self, base, *a, **k):
        return self.fresh('%s_%d' % (base, self.count('fresh:' + base)), *a, **k)

    # -- patching
    def patch_attr(self, obj, name, value):
        old = getattr(obj, name)
        setattr(obj, name, value)
        self.undo.append((obj, name, old))

    def patch(self, modname, attr, repl):
        """Replace a module-level object of /repo wherever a module of /repo holds it."""
        orig = getattr(self.mod(modname), attr)
        for n in MODULES:
            self.mod(n)
        for m in self.repo_modules():
            for k, v in list(vars(m).items()):
                if v is orig:
                    self.patch_attr(m, k, repl)
        return orig

    def record(self, modname, attr, ret=None):
        """Replace a function by a recorder; calls arrive bound to the original's parameter names."""
        calls = []
        orig = getattr(self.mod(modname), attr)
        sig = inspect.signature(orig)

        def stub(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            d = dict(b.arguments)
            calls.append(d)
            return ret(d) if callable(ret) else ret
        self.patch(modname, attr, stub)
        return calls

    def start_logging(self):
        h = LogCapture(self.logs)
        for n in ('Oneka', 'oneka', 'oneka.capturezone'):
            lg = logging.getLogger(n)
            st = (lg.level, lg.propagate, list(lg.handlers))
            lg.setLevel(logging.DEBUG)
            lg.propagate = False
            lg.handlers[:] = [h] if n != 'oneka.capturezone' else []
            lg.propagate = n == 'oneka.capturezone'
            self.undo.append(('logger', lg, st))

    def finish(self):
        while self.undo:
            o, n, v = self.undo.pop()
            if o == 'logger':
                n.setLevel(v[0])
                n.propagate = v[1]
                n.handlers[:] = v[2]
            else:
                setattr(o, n, v)

    # -- running the code under test
    def call(self, f, *a, **k):
        try:
            v = f(*a, **k)
            e = None
        except Exception as ex:
            v, e = None, ex
        self.after_call()
        return v, e

    def must(self, label, f, *a, **k):
        v, e = self.call(f, *a, **k)
        if e is not None:
            self.fail(label + ': raised', '%s: %s' % (type(e).__name__, e))
        return v

    def fail(self, label, detail=''):
        self.check(label, False, detail)
        raise Stop()

    def all(self, conds):
        r = self.true(True)
        for c in conds:
            r = self.and_(r, c)
        return r

    def any(self, conds):
        r = self.true(False)
        for c in conds:
            r = self.or_(r, c)
        return r

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def eqs(self, xs, ys, **k):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return self.true(False)
        return self.all([self.eq(x, y, **k) for x, y in zip(xs, ys)])

    def eqarr(self, a, b, **k):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self.true(False)
        return self.eqs(a.reshape(-1), b.reshape(-1), **k)

    def same(self, a, b):
        """Same structure (lists/tuples/dicts/arrays) with equal leaves."""
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
                return self.true(False)
            return self.eqarr(a, b)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return self.true(False)
            return self.all([self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                return self.true(False)
            return self.all([self.same(a[k], b[k]) for k in a])
        return self.eq(a, b)


class Cond:
    """t: exact truth; rt(m) / rf(m): true / false with margin m."""
    __slots__ = ('t', 'rt', 'rf')

    def __init__(self, t, rt=None, rf=None):
        self.t = t
        self.rt = rt or (lambda m: t)
        self.rf = rf or (lambda m: bnot(t))


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, params, eng, hooks):
        BaseCtx.__init__(self, params)
        self.eng = eng
        self.hooks = hooks              # explorer: on_check(ctx, label, cond, detail)
        self.log = []
        self.virtual_modules = {}
        self.fake_modules = {}
        self.fake_modules.update(stubs.plotting_modules(self.plots))
        self.fake_modules.update(stubs.scipy_modules(self))
        self.fake_modules.update(stubs.archive_modules(self))
        self.store = {}
        self.solves = []
        self.loader = None
        self.soft = {}

    # -- environment for the loader
    def unsupported(self, msg):
        self.eng.unsupported(msg)

    def open(self, name, mode='r', *a, **k):
        if 'b' not in mode:
            self.unsupported('open() of a text file')
        return stubs.StoreFile(self, name, mode)

    def files(self):
        return sorted(self.store)

    def captured(self):
        return '\n'.join(t for k, t in self.log if k == 'print')

    def _loader(self):
        if self.loader is None:
            self.loader = Loader(self)
            self.np = self.loader.np
        return self.loader

    def mod(self, name):
        return self._loader().mod(name)

    def repo_modules(self):
        return self._loader().repo_modules()

    @property
    def numpy(self):
        return self._loader().np

    # contract stubs
    def _vec(self, base, shape):
        n = self.count(base)
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            r[i] = self.real('%s%d_%s' % (base, n, '_'.join(map(str, i))), soft=(-3, 3), stub=True)
        return r

    def lstsq(self, A, b, coarse=False):
        A, b = A.astype(object), b.astype(object)
        M = None if coarse else constants(A)
        if M is not None:
            M = inverse([[sum(r[i] * r[j] for r in M) for j in range(A.shape[1])] for i in range(A.shape[1])])
        if M is not None:                       # the one vector that satisfies the contract
            x = exact(M).dot(A.T.dot(b))
            self.solves.append(('lstsq', A, b, x))
            e = np.empty(0, dtype=object)
            return x, e, A.shape[1], e
        x = self._vec('lstsq', (A.shape[1],) + b.shape[1:])
        r = A.dot(x) - b
        if not coarse:                          # a coarse cut-off promises nothing about the directions it drops
            for v in A.T.dot(r).reshape(-1):
                self.eng.fact(lift(v).p)
        self.solves.append(('lstsq', A, b, x))
        e = np.empty(0, dtype=object)
        return x, e, A.shape[1], e

    def inv(self, A):
        A = A.astype(object)
        M = constants(A)
        M = M and inverse(M)
        if M is not None:
            self.solves.append(('inv', A, None, exact(M)))
            return exact(M)
        X = self._vec('inv', A.shape)
        n = A.shape[0]
        if all(A[i, j] is A[j, i] or lift(A[i, j]).p == lift(A[j, i]).p for i in range(n) for j in range(i)):
            for i in range(n):                  # the inverse of a symmetric matrix is symmetric
                for j in range(i):
                    X[i, j] = X[j, i]
        for M in (A.dot(X), X.dot(A)):
            for i in range(n):
                for j in range(n):
                    self.eng.fact(lift(M[i, j] - (1 if i == j else 0)).p)
        self.solves.append(('inv', A, None, X))
        return X

    def solve(self, A, b):
        A, b = A.astype(object), np.asarray(b).astype(object)
        if b.ndim == 2 and b.shape == A.shape and all(lift(b[i, j]).p == lift(1.0 if i == j else 0.0).p for i in range(len(b)) for j in range(len(b))):
            return self.inv(A)
        M = constants(A)
        M = M and inverse(M)
        if M is not None:
            return exact(M).dot(b)
        x = self._vec('solve', b.shape)
        for v in np.asarray(A.dot(x) - b).reshape(-1):
            self.eng.fact(lift(v).p)
        return x

    def pinv(self, A, coarse=False):
        A = A.astype(object)
        if coarse:
            return self._vec('pinv', A.T.shape)
        if A.shape[0] == A.shape[1]:
            return self.inv(A)
        # full column rank: A+ = (A'A)^-1 A'
        return self.inv(A.T.dot(A)).dot(A.T)

    # -- inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None, soft=None, stub=False):
        e = self.eng
        if name in e.inputs:
            raise AssertionError('input %s twice' % name)
        pos = True if (gt is not None and not isinstance(gt, Sym) and gt >= 0) else None
        a = e.input_atom(name, pos)
        s = Sym({((a.id, 1),): Fr(1)})
        e.inputs[name] = s
        if soft is None:
            soft = (0, 8) if (pos or (lo is not None and not isinstance(lo, Sym) and lo >= 0)) else (-8, 8)
        self.soft[name] = (soft, stub)
        a.lo, a.hi = soft
        for v, f in ((lo, lambda v: s >= v), (hi, lambda v: s <= v), (gt, lambda v: s > v), (lt, lambda v: s < v)):
            if v is not None:
                e.assume(f(v))
        return s

    def fresh(self, name, lo=None, hi=None, soft=None):
        if soft is None:
            f = [x if isinstance(x, (int, float)) and not is_nonfinite(float(x)) else None for x in (lo, hi)]
            soft = (f[0] if f[0] is not None else -8, f[1] if f[1] is not None else 8)
        lo = None if isinstance(lo, float) and is_nonfinite(lo) else lo
        hi = None if isinstance(hi, float) and is_nonfinite(hi) else hi
        return self.real(name, lo, hi, soft=soft, stub=True)

    def integer(self, name, lo, hi):
        """Symbolic integer (isinstance int)."""
        e = self.eng
        a = e._new('int', name)
        s = Sym({((a.id, 1),): Fr(1)})
        e.inputs[name] = s
        self.soft[name] = ((lo if lo is not None else -5, hi if hi is not None else 5), False)
        a.lo, a.hi = self.soft[name][0]
        if lo is not None:
            e.assume(s >= lo)
        if hi is not None:
            e.assume(s <= hi)
        return s

    def choice(self, name, n):
        k = self.eng.choose(n)
        self.eng.inputs[name] = k
        return k

    def flag(self, name):
        return bool(self.choice(name, 2))

    def assume(self, c):
        if isinstance(c, Cond):
            c = c.t
        self.eng.assume(c)

    def after_call(self):
        self.eng.check_abort()

    def cut(self, msg):
        """Declared bound of the harness reached."""
        self.eng.abort('bound', msg)

    # -- conditions
    def true(self, b):
        if isinstance(b, SymBool):
            return Cond(b)
        if isinstance(b, np.bool_):
            b = bool(b)
        return Cond(bool(b))

    def _diff(self, a, b):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            return None
        return padd(x.p, y.p, -1)

    def eq(self, a, b, tol=None, scale=None):
        d = self._diff(a, b)
        if d is None:
            fa, fb = isinstance(a, float), isinstance(b, float)
            if fa and fb:
                return Cond(bool(a == b or (a != a and b != b)))
            if fa or fb or isinstance(a, Sym) or isinstance(b, Sym):
                return Cond(False)
            r = a is b or a == b
            return Cond(r if isinstance(r, bool) else bool(r))
        t = compare(d, 'eq')

        def rf(m):
            return bor(compare(padd(sym.pconst(m), d, -1), 'le'), compare(padd(d, sym.pconst(m)), 'le'))
        return Cond(t, None, rf)

    def _rel(self, a, b, rel):
        d = self._diff(a, b)
        if d is None:
            try:
                fa = float(a) if not isinstance(a, Sym) else 0.0
                fb = float(b) if not isinstance(b, Sym) else 0.0
            except (TypeError, ValueError):
                return Cond(False)
            return Cond(bool(fa < fb if rel == 'lt' else fa <= fb))
        t = compare(d, rel)
        return Cond(t, lambda m: compare(padd(d, sym.pconst(m)), 'le'), lambda m: compare(padd(sym.pconst(m), d, -1), 'le'))

    def lt(self, a, b, **k):
        return self._rel(a, b, 'lt')

    def le(self, a, b, **k):
        return self._rel(a, b, 'le')

    def and_(self, a, b):
        a, b = self._c(a), self._c(b)
        return Cond(band(a.t, b.t), lambda m: band(a.rt(m), b.rt(m)), lambda m: bor(a.rf(m), b.rf(m)))

    def or_(self, a, b):
        a, b = self._c(a), self._c(b)
        return Cond(bor(a.t, b.t), lambda m: bor(a.rt(m), b.rt(m)), lambda m: band(a.rf(m), b.rf(m)))

    def not_(self, a):
        a = self._c(a)
        return Cond(bnot(a.t), a.rf, a.rt)

    def _c(self, a):
        return a if isinstance(a, Cond) else self.true(a)

    def check(self, label, c, detail=''):
        self.eng.check_abort()
        self.labels.append(label)
        self.hooks.on_check(self, label, self._c(c), detail)

    # -- helpers
    def exact(self, v):
        """The decimal number v as an exact rational (a float in real runs)."""
        return Sym(sym.pconst(Fr(str(v))))

    def canon(self, v):
        return sym.pkey(lift(v).p)

    def truncate(self, name, degree):
        """From now on products are power series in the input, cut after the given degree."""
        (m, _), = self.eng.inputs[name].p.items()
        self.eng.trunc = (m[0][0], degree)

    def deriv(self, s, x, f=None):
        """d s / d x"""
        return sym.diff(lift(s), x)

    def grad(self, f, args, i):
        return sym.diff(lift(f(*args)), args[i])

    GRAD_TOL = 0

    def sqrt(self, x):
        return sym.sym_sqrt(x)

    def log_(self, x):
        return sym.sym_log(x)

    def floor(self, x):
        return x.__floor__() if isinstance(x, Sym) else math.floor(x)

    pi = math.pi

    def numbers(self, text):
        """Numbers printed in text: list of (value, half-unit of the last printed digit)."""
        return parse_numbers(text, self.eng.tokens)


def parse_numbers(text, tokens=None):
    import re
    out = []
    for m in re.finditer(r'\u27e6\d+\u27e7|[+-]?(?:\d[\d,]*\.?\d*(?:[eE][+-]?\d+)?|nan|inf)', text):
        t = m.group(0)
        if t[0] == '\u27e6':
            out.append((tokens[t][0], 0))
            continue
        t2 = t.replace(',', '')
        try:
            v = float(t2)
        except ValueError:
            continue
        mant, _, ex = t2.lower().partition('e')
        dec = len(mant.partition('.')[2])
        out.append((v, 0.51 * 10.0 ** (-dec + (int(ex) if ex else 0))))
    return out
