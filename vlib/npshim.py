"""numpy / math stand-ins for symbolic execution: real numpy on object arrays, with the functions overridden that would otherwise
need hardware floats.  With no symbolic argument everything is computed by the real library."""
import builtins
import math as _math
import types
from fractions import Fraction as Fr

import numpy as np

from . import sym
from .sym import Sym, SymBool, lift


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, float) or (builtins.isinstance(x, Sym) and not is_int_sym(x))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


def is_int_sym(s):
    """Declared integer inputs (kind 'int') and their integral combinations behave like int for isinstance."""
    p = s.p
    return bool(p) and all(i_ok(m) for m in p) and sym.E.is_integral(p)


def i_ok(m):
    return all(sym.E.atoms[i].kind == 'int' for i, e in m)


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if builtins.isinstance(x, Sym):
            return x
        if builtins.isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.reshape(-1)[0])
        return builtins.float(x)

    fromhex = float.fromhex


def sym_isinstance(x, cls):
    if builtins.isinstance(x, Sym):
        cs = cls if builtins.isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cs:
            flat.extend(c if builtins.isinstance(c, tuple) else (c,))
        import numbers
        integral = is_int_sym(x)
        for c in flat:
            if c is Sym or c is object:
                return True
            if c in (Single, Half):
                continue
            if c in (FloatShim, float, np.floating, np.float64):
                if not integral:
                    return True
            elif c in (int, np.integer, numbers.Integral):
                if integral:
                    return True
            elif c in (numbers.Number, numbers.Real, numbers.Complex):
                return True
        return False
    return builtins.isinstance(x, cls)


class LowMeta(type):
    def __call__(cls, x=0.0):
        return low(x, cls.bits)


class Single(metaclass=LowMeta):
    bits = 24


class Half(metaclass=LowMeta):
    bits = 11


LOW = {np.float32: 24, np.float16: 11, 'float32': 24, 'f4': 24, 'f': 24, 'single': 24, 'float16': 11, 'f2': 11, 'half': 11, 'e': 11, Single: 24, Half: 11}


def low_bits(d):
    if isinstance(d, np.dtype):
        return {'f4': 24, 'f2': 11}.get(d.kind + str(d.itemsize))
    try:
        return LOW.get(d)
    except TypeError:
        return None


def low(x, bits):
    """x rounded to a narrower format (numbers, or arrays element by element)"""
    if isinstance(x, np.ndarray):
        return Low.of(x, bits)
    if isinstance(x, (list, tuple)):
        return Low.of(np.asarray(x, dtype=object), bits)
    if isinstance(x, (bool, np.bool_, SymBool)):
        return 1.0 if x else 0.0
    if isinstance(x, (Sym, Fr)):
        return sym.E.rounded(x, bits)
    return float((np.float32 if bits == 24 else np.float16)(x))


class Low(np.ndarray):
    """An object array standing for one of float32 / float16: whatever is stored is rounded."""
    bits = None

    @staticmethod
    def of(a, bits):
        r = np.empty(a.shape, dtype=object).view(Low)
        r.bits = bits
        r[...] = a
        return r

    def __array_finalize__(self, o):
        self.bits = getattr(o, 'bits', None)

    def __setitem__(self, i, v):
        if self.bits:
            if isinstance(v, np.ndarray) and v.ndim:
                w = np.empty(v.shape, dtype=object)
                for k in np.ndindex(v.shape):
                    w[k] = low(v[k], self.bits)
                v = w
            elif isinstance(v, (list, tuple)):
                v = low(v, self.bits).view(np.ndarray)
            else:
                v = low(v.item() if isinstance(v, np.ndarray) else v, self.bits)
        np.ndarray.__setitem__(self, i, v)

    def _in(op):
        def f(self, o):
            self[...] = op(self.view(np.ndarray), o)
            return self
        return f
    __iadd__ = _in(lambda a, b: a + b)
    __isub__ = _in(lambda a, b: a - b)
    __imul__ = _in(lambda a, b: a * b)
    __itruediv__ = _in(lambda a, b: a / b)


def astype(x, *a, **k):
    """x.astype(dtype) where x may hold symbolic values"""
    if isinstance(x, Sym):
        x = np.array(x, dtype=object)
        return astype(x, *a, **k)[()]
    if not (isinstance(x, np.ndarray) and x.dtype == object) or not (a or 'dtype' in k):
        if isinstance(x, np.ndarray) and (a or 'dtype' in k):
            d = a[0] if a else k['dtype']
            b = low_bits(d)
            if b:
                return low(x, b)
            d2, o = dt(d)
            if o:
                return obj(np.array(x, dtype=float))
        return x.astype(*a, **k)
    d = a[0] if a else k['dtype']
    b = low_bits(d)
    if b:
        return low(x, b)
    d2, o = dt(d)
    x = x.view(np.ndarray)
    if o:
        if k.get('copy', True) is False:
            return x
        return x.copy()
    d2 = np.dtype(d2)
    r = np.empty(x.shape, dtype=d2)
    for i in np.ndindex(x.shape):
        v = x[i]
        if isinstance(v, Sym):
            v = bool(v != 0) if d2.kind == 'b' else int(v) if d2.kind in 'iu' else v
        elif isinstance(v, (float, Fr)) and d2.kind in 'iu':
            v = int(v)
        r[i] = v
    return r


def dt(d):
    """(real dtype or None, objectify)"""
    if d is None:
        return None, True
    if d in (FloatShim, float, np.float64, np.double, 'float', 'float64', 'd', 'f8', object) or d == FloatShim:
        return object, True
    return d, False


def obj(a):
    if isinstance(a, np.ndarray) and a.dtype.kind == 'f':
        return a.astype(object)
    return a


def unary(f, real, out_bool=False):
    def g(x, *a, **k):
        out = k.pop('out', None)
        k.pop('dtype', None)
        if isinstance(x, Sym):
            r = f(x)
        elif isinstance(x, (list, tuple)) or isinstance(x, np.ndarray):
            xx = np.asarray(x) if not isinstance(x, np.ndarray) else x
            if xx.dtype != object:
                r = real(x, *a, **k)
                r = obj(r) if not out_bool else r
            else:
                res = np.empty(xx.shape, dtype=bool if out_bool else object)
                for i in np.ndindex(xx.shape):
                    res[i] = g(xx[i])
                r = res if xx.ndim else res[()]
        else:
            if isinstance(x, Fr):
                x = float(x)
            r = real(x, *a, **k)
            if isinstance(r, np.floating):
                r = float(r)
        if out is not None:
            (out[0] if isinstance(out, tuple) else out)[...] = r
            return out
        return r
    return g


def binary(f, real):
    def g(x, y, *a, **k):
        if isinstance(x, (np.ndarray, list, tuple)) or isinstance(y, (np.ndarray, list, tuple)):
            xx, yy = np.asarray(x), np.asarray(y)
            if xx.dtype != object and yy.dtype != object:
                return obj(real(x, y, *a, **k))
            xb, yb = np.broadcast_arrays(xx.astype(object), yy.astype(object))
            res = np.empty(xb.shape, dtype=object)
            for i in np.ndindex(xb.shape):
                res[i] = g(xb[i], yb[i])
            return res if xb.ndim else res[()]
        if isinstance(x, Sym) or isinstance(y, Sym):
            return f(x, y)
        r = real(x, y, *a, **k)
        return float(r) if isinstance(r, np.floating) else r
    return g


def _uns(name):
    def f(*a):
        sym.E.unsupported(name)
    return f


def s_sqrt(x):
    return sym.sym_sqrt(x)


def s_hypot(x, y):
    if sym.is_nonfinite(x) if isinstance(x, float) else False:
        return abs(x)
    if sym.is_nonfinite(y) if isinstance(y, float) else False:
        return abs(y)
    return sum_root(x * x + y * y)


def sum_root(t):
    """root of a sum of squares (never negative)"""
    return sym.sym_root(t, 2, checked=True) if isinstance(t, Sym) else _math.sqrt(t)


def s_sign(x):
    if x > 0:
        return 1.0
    if x < 0:
        return -1.0
    return 0.0


def s_log_base(b):
    return lambda x: sym.sym_log(x) / _math.log(b)


def s_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(abs(a - b) <= atol + rtol * abs(b))


def s_max(x, y):
    return x if x >= y else y


def s_min(x, y):
    return x if x <= y else y


def s_cos(x):
    c = x.concrete()
    if c is not None:
        return _math.cos(float(c))
    k = _pimult(x)
    if k is not None:
        return _math.cos(float(k) * _math.pi)
    sym.E.unsupported('cos')


def s_sin(x):
    k = _pimult(x)
    if k is not None:
        return _math.sin(float(k) * _math.pi)
    sym.E.unsupported('sin')


def _pimult(x):
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 1 and m[0][1] == 1 and sym.E.atoms[m[0][0]].kind == 'pi':
            return c
    return None


def s_mod(a, b):
    return a % b


def coarse(rcond):
    """does this cut-off drop directions of a regular matrix?  (None, -1 and rounding-level cut-offs do not)"""
    return rcond is not None and (isinstance(rcond, Sym) or rcond > 1e-11)


class Linalg:
    """numpy.linalg with contract stubs for the solvers."""
    LinAlgError = np.linalg.LinAlgError

    def __init__(self, env):
        self.env = env

    def norm(self, x, ord=None, axis=None, keepdims=False):
        a = np.asarray(x)
        if sym.E is not None and sym.E.trunc and a.dtype == object:     # power series: sizes are not represented
            return self.env.nfresh('norm', 0, 1)
        if a.dtype != object:
            r = np.linalg.norm(x, ord, axis, keepdims)
            return obj(r) if isinstance(r, np.ndarray) else float(r)
        if axis is not None:
            r = np.apply_along_axis(lambda v: self.norm(v, ord), axis, a)
            return np.expand_dims(r, axis) if keepdims else r
        v = a.reshape(-1)
        if a.ndim > 1 and ord not in (None, 'fro'):
            sym.E.unsupported('matrix norm')
        for e in v:
            if isinstance(e, float) and e != e:
                return _math.nan
        if ord in (None, 2, 'fro'):
            t = 0
            for e in v:
                t = t + e * e
            return sum_root(t) if isinstance(t, Sym) else _math.sqrt(t)
        if ord in (np.inf, _math.inf):
            m = None
            for e in v:
                e = abs(e)
                if m is None or e > m:
                    m = e
            return m
        if ord in (-np.inf, -_math.inf):
            m = None
            for e in v:
                e = abs(e)
                if m is None or e < m:
                    m = e
            return m
        if ord == 1:
            return sum(abs(e) for e in v)
        sym.E.unsupported('norm ord %r' % (ord,))

    def lstsq(self, A, b, rcond=None):
        return self.env.lstsq(np.asarray(A), np.asarray(b), coarse(rcond))

    def inv(self, A):
        return self.env.inv(np.asarray(A))

    def pinv(self, A, rcond=1e-15, hermitian=False):
        return self.env.pinv(np.asarray(A), coarse(rcond))

    def solve(self, A, b):
        return self.env.solve(np.asarray(A), np.asarray(b))

    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def g(*a, **k):
            if has_sym(list(a)):
                sym.E.unsupported('linalg.' + n)
            return f(*a, **k)
        return g


def whole(x):
    if isinstance(x, Sym):
        return x.__index__()
    if isinstance(x, (list, tuple)):
        return type(x)(whole(v) for v in x)
    return x


class NPShim(types.ModuleType):
    def __init__(self, env):
        types.ModuleType.__init__(self, 'numpy')
        self.env = env
        d = self.__dict__
        d['linalg'] = Linalg(env)
        d['random'] = env.random
        d['float'] = d['float64'] = d['double'] = d['float_'] = FloatShim
        d['bool'] = bool
        d['int'] = int
        d['ndarray'] = np.ndarray
        for n, f in dict(sqrt=s_sqrt, log=sym.sym_log, log10=s_log_base(10), log2=s_log_base(2),
                         log1p=lambda x: sym.sym_log(1 + x), floor=lambda x: x.__floor__(), ceil=lambda x: x.__ceil__(),
                         sign=s_sign, cos=s_cos, sin=s_sin, exp=_uns('exp'), tan=_uns('tan'), arctan=_uns('arctan'),
                         rint=lambda x: round(x), trunc=lambda x: x.__trunc__(), square=lambda x: x * x, cbrt=_uns('cbrt'),
                         reciprocal=lambda x: 1 / x, degrees=_uns('degrees'), radians=lambda x: x * _math.pi / 180,
                         deg2rad=lambda x: x * _math.pi / 180, fabs=abs, abs=abs, absolute=abs, real=lambda x: x,
                         nan_to_num=lambda x: x).items():
            d[n] = unary(f, getattr(np, n))
        for n, f in dict(isnan=lambda x: False, isinf=lambda x: False, isfinite=lambda x: True).items():
            d[n] = unary(f, getattr(np, n), out_bool=True)
        d['hypot'] = binary(s_hypot, np.hypot)
        d['arctan2'] = binary(_uns('arctan2'), np.arctan2)
        d['maximum'] = d['fmax'] = binary(s_max, np.maximum)
        d['minimum'] = d['fmin'] = binary(s_min, np.minimum)
        d['mod'] = d['remainder'] = binary(s_mod, np.mod)
        d['floor_divide'] = binary(lambda a, b: a // b, np.floor_divide)
        d['isclose'] = self._isclose
        d['allclose'] = lambda a, b, **k: bool(np.all(self._isclose(a, b, **k)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(np, n)

    def _isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not has_sym(a) and not has_sym(b):
            return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
        return binary(lambda x, y: s_isclose(x, y, rtol, atol), None)(a, b)

    # ---- constructors
    def _mk(name):
        real = getattr(np, name)

        def f(self, shape, dtype=None, *a, **k):
            b = low_bits(dtype)
            if b:
                return low(real(self._shape(shape)), b)
            d, o = dt(dtype)
            r = real(self._shape(shape), dtype=float if o else d)
            return obj(r)
        return f
    zeros = _mk('zeros')
    ones = _mk('ones')

    def empty(self, shape, dtype=None, *a, **k):
        return self.zeros(shape, dtype)

    def _shape(self, s):
        if isinstance(s, Sym):
            return s.__index__()
        if isinstance(s, (tuple, list)):
            return tuple(x.__index__() if isinstance(x, Sym) else x for x in s)
        return s

    def full(self, shape, fill, dtype=None, **k):
        if dtype is None and isinstance(fill, (bool, np.bool_)):
            return np.full(shape, fill)
        if dtype is None and isinstance(fill, int):
            return np.full(self._shape(shape), fill)
        if low_bits(dtype):
            return low(self.full(shape, fill, float), low_bits(dtype))
        d, o = dt(dtype)
        if not o:
            return np.full(self._shape(shape), fill, dtype=d)
        r = np.empty(self._shape(shape), dtype=object)
        r[...] = fill
        return r

    def _like(name):
        real = getattr(np, name)

        def f(self, a, dtype=None, **k):
            a = np.asarray(a)
            b = low_bits(dtype)
            if b:
                return low(real(np.zeros(a.shape)), b)
            if dtype is None:
                if a.dtype == object:
                    return obj(real(np.zeros(a.shape)))
                return obj(real(a))
            d, o = dt(dtype)
            return obj(real(np.zeros(a.shape), dtype=float if o else d))
        return f
    zeros_like = _like('zeros_like')
    ones_like = _like('ones_like')
    empty_like = _like('zeros_like')

    def full_like(self, a, fill, dtype=None, **k):
        return self.full(np.asarray(a).shape, fill, dtype if dtype is not None else (bool if np.asarray(a).dtype == bool else float))

    def _conv(self, x, dtype, copy):
        if low_bits(dtype):
            return low(np.array(x, dtype=object), low_bits(dtype))
        d, o = dt(dtype)
        if dtype is None:
            r = np.array(x, copy=copy) if copy else np.asarray(x)
            return obj(r)
        if o:
            r = np.array(x, dtype=object)
            if not copy and isinstance(x, np.ndarray) and x.dtype == object:
                return x
            flat = r.reshape(-1)
            for i, v in enumerate(flat):
                if isinstance(v, (bool, np.bool_, SymBool)):
                    flat[i] = 1.0 if v else 0.0
                elif isinstance(v, str) or v is None:
                    flat[i] = float(v)
            return r
        return np.array(x, dtype=d) if copy else np.asarray(x, dtype=d)

    def array(self, x, dtype=None, copy=True, **k):
        r = self._conv(x, dtype, True)
        nd = k.get('ndmin', 0)
        while r.ndim < nd:
            r = r[None]
        return r

    def asarray(self, x, dtype=None, **k):
        return self._conv(x, dtype, False)
    asanyarray = asarray

    def asfarray(self, x):
        return self._conv(x, float, False)

    def ascontiguousarray(self, x, dtype=None):
        return self._conv(x, dtype, False)

    def fromiter(self, it, dtype=None, count=-1):
        return self._conv(list(it), dtype, True)

    def eye(self, n, *a, **k):
        return obj(np.eye(n, *a, **k))
    identity = eye

    def copy(self, x):
        return self.array(x)

    def arange(self, *a, **k):
        if not any(isinstance(x, Sym) for x in a):
            return obj(np.arange(*a, **k))
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        start, stop, step = a
        if all((not isinstance(x, Sym) and isinstance(x, (int, np.integer))) or (isinstance(x, Sym) and x.is_integer()) for x in a):
            return np.arange(*[x.__index__() if isinstance(x, Sym) else int(x) for x in a])
        n = -(-(stop - start) // step)
        n = max(0, n.__index__() if isinstance(n, Sym) else int(n))
        return self._objarr([start + i * step for i in range(n)])

    def _objarr(self, xs):
        r = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            r[i] = x
        return r

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        if isinstance(num, Sym):
            num = num.__index__()
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            r = np.linspace(a, b, num, endpoint=endpoint, retstep=retstep)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)) and _math.isfinite(a) and _math.isfinite(b) and not retstep and num > 1:
                (k, g), (l, h) = sym.coerce_float(float(a)), sym.coerce_float(float(b))
                if k == l == 'r':       # the nodes rounded once, so that they read as simple rationals again
                    r = np.array([float(g + (h - g) * Fr(i, num - 1 if endpoint else num)) for i in range(num)])
            return (obj(r[0]), r[1]) if retstep else obj(r)
        div = (num - 1) if endpoint else num
        step = (b - a) / div if div > 0 else _math.nan
        xs = [a + (b - a) * Fr(i, div) if div > 0 else a for i in range(num)]
        if endpoint and num > 1:
            xs[-1] = b
        r = self._objarr(xs)
        return (r, step) if retstep else r

    def reshape(self, a, newshape, *r, **k):
        return np.reshape(self.asarray(a), newshape, *r, **k)

    # ---- functions whose arguments are counts or positions: a symbolic integer is decided first
    def pad(self, a, pad_width, *r, **k):
        return np.pad(self.asarray(a), whole(pad_width), *r, **{n: v for n, v in k.items()})

    def roll(self, a, shift, *r, **k):
        return np.roll(a, whole(shift), *r, **k)

    def tile(self, a, reps):
        return np.tile(a, whole(reps))

    def repeat(self, a, reps, *r, **k):
        return np.repeat(a, whole(reps), *r, **k)

    def delete(self, a, where, *r, **k):
        return np.delete(a, whole(where), *r, **k)

    def insert(self, a, where, *r, **k):
        return np.insert(a, whole(where), *r, **k)

    def isscalar(self, x):
        return True if isinstance(x, Sym) else np.isscalar(x)

    def finfo(self, t=float):
        return np.finfo(float if t is FloatShim else t)

    def _stat(self, x, axis, f):
        a = np.asarray(x)
        if a.dtype != object or axis is not None:
            return None
        return f([v for v in a.reshape(-1)])

    def var(self, x, axis=None, dtype=None, out=None, ddof=0, **k):
        a = np.asarray(x)
        if a.dtype != object:
            return np.var(x, axis=axis, ddof=ddof)
        if axis is not None:
            return np.apply_along_axis(lambda v: self.var(v, ddof=ddof), axis, a)
        v = a.reshape(-1)
        m = sum(v) / len(v)
        return sum((e - m) * (e - m) for e in v) / (len(v) - ddof)

    def std(self, x, axis=None, dtype=None, out=None, ddof=0, **k):
        a = np.asarray(x)
        if a.dtype != object:
            return np.std(x, axis=axis, ddof=ddof)
        return self.sqrt(self.var(a, axis=axis, ddof=ddof))

    def mean(self, x, axis=None, **k):
        a = np.asarray(x)
        if a.dtype != object or axis is not None:
            return np.mean(x, axis=axis, **k)
        v = a.reshape(-1)
        return sum(v) / len(v) if len(v) else _math.nan

    def average(self, x, axis=None, weights=None, returned=False):
        a = np.asarray(x)
        if weights is None or (a.dtype != object and not has_sym(weights)):
            return self.mean(x, axis) if weights is None else np.average(x, axis, weights, returned)
        w = np.asarray(weights).astype(object)
        t = (a * w).sum(axis) / w.sum(axis)
        return (t, w.sum(axis)) if returned else t

    def median(self, x, axis=None, **k):
        a = np.asarray(x)
        if a.dtype != object or axis is not None:
            return np.median(x, axis=axis)
        v = sorted(a.reshape(-1))
        n = len(v)
        return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2

    def _nan(name):
        def f(self, x, axis=None, **k):
            a = np.asarray(x)
            if a.dtype != object:
                return getattr(np, name)(x, axis=axis, **k)
            v = [e for e in a.reshape(-1) if not (isinstance(e, float) and e != e)]
            return getattr(self, {'nanmin': 'min', 'nanmax': 'max', 'nanmean': 'mean', 'nanstd': 'std', 'nanvar': 'var',
                                  'nanmedian': 'median', 'nansum': 'sum'}[name])(self._objarr(v))
        return f
    nanmin = _nan('nanmin')
    nanmax = _nan('nanmax')
    nanmean = _nan('nanmean')
    nanstd = _nan('nanstd')
    nanvar = _nan('nanvar')
    nanmedian = _nan('nanmedian')
    nansum = _nan('nansum')

    def clip(self, x, lo, hi, **k):
        if not (has_sym(x) or has_sym(lo) or has_sym(hi)):
            return np.clip(x, lo, hi, **k)
        r = x
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        return r

    def meshgrid(self, *a, **k):
        return [obj(x) for x in np.meshgrid(*a, **k)]

    float32 = single = Single
    float16 = half = Half

    def round(self, x, decimals=0, out=None):
        f = unary(lambda v: v.__round__(decimals), lambda v: np.round(v, decimals))
        return f(x, out=out) if out is not None else f(x)
    around = round_ = round


def make_math():
    m = types.ModuleType('math')
    for n in dir(_math):
        setattr(m, n, getattr(_math, n))

    def w(name, f):
        real = getattr(_math, name)

        def g(*a):
            if any(isinstance(x, Sym) for x in a):
                return f(*a)
            return real(*a)
        setattr(m, name, g)
    w('floor', lambda x: x.__floor__())
    w('ceil', lambda x: x.__ceil__())
    w('trunc', lambda x: x.__trunc__())
    w('sqrt', lambda x: sym.sym_sqrt(x, neg='raise'))
    w('hypot', lambda *a: sum_root(sum(v * v for v in a)))
    w('fabs', abs)
    w('isnan', lambda x: False)
    w('isinf', lambda x: False)
    w('isfinite', lambda x: True)
    w('pow', lambda a, b: a ** b)
    w('cos', s_cos)
    w('sin', s_sin)
    w('copysign', lambda a, b: abs(a) if b >= 0 else -abs(a))
    w('fmod', lambda a, b: a % b)

    def mlog(x, *b):
        if not isinstance(x, Sym):
            return _math.log(x, *b)
        if x <= 0:
            raise ValueError('math domain error')
        r = sym.sym_log(x)
        return r / _math.log(*b) if b else r
    m.log = mlog

    def fsum(xs):
        xs = list(xs)
        return sum(xs) if any(isinstance(x, Sym) for x in xs) else _math.fsum(xs)
    m.fsum = fsum
    m.prod = lambda xs, start=1: _prod(xs, start)

    def dist(p, q):
        return m.hypot(*[a - b for a, b in zip(p, q)])
    m.dist = dist

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        A, B = abs(a), abs(b)
        return bool(abs(a - b) <= rel_tol * (A if A >= B else B)) or bool(abs(a - b) <= abs_tol)
    m.isclose = isclose
    for n in ('atan2', 'atan', 'tan', 'exp', 'acos', 'asin', 'degrees'):
        w(n, _uns(n))
    return m


def _prod(xs, start):
    for x in xs:
        start = start * x
    return start
