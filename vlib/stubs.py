"""Environment stand-ins shared by the symbolic and the concrete mode: plotting recorder, random source, Gaussian filter."""
import types

import numpy as np

DEFINES = ('lstsq', 'inv', 'solve', 'pinv')


class Stop(BaseException):
    """Ends the harness early (after a failed or impossible step)."""


class Rec:
    """Records every call made on it or on anything obtained from it."""
    def __init__(self, calls, name):
        self.__dict__['_calls'] = calls
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Rec(self._calls, n)

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __call__(self, *a, **k):
        self._calls.append((self._name, snap(a), {x: snap(y) for x, y in k.items()}))
        if self._name == 'subplots':
            return Rec(self._calls, 'figure'), Rec(self._calls, 'ax')
        return Rec(self._calls, self._name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(())


def snap(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [snap(v) for v in x]
    if isinstance(x, tuple):
        return tuple(snap(v) for v in x)
    return x


class RecModule(types.ModuleType):
    def __init__(self, name, calls):
        types.ModuleType.__init__(self, name)
        self.__dict__['_calls'] = calls
        self.__dict__['__path__'] = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Rec(self._calls, n)


def plotting_modules(calls):
    names = ['matplotlib', 'matplotlib.pyplot', 'matplotlib.cm', 'matplotlib.colors', 'matplotlib.ticker', 'matplotlib.patches',
             'matplotlib.collections', 'matplotlib.path', 'matplotlib.figure', 'matplotlib.axes']
    ms = {n: RecModule(n, calls) for n in names}
    for n in names[1:]:
        setattr(ms['matplotlib'], n.split('.')[1], ms[n])
    return ms


class Ndimage(types.ModuleType):
    def __init__(self, ctx):
        types.ModuleType.__init__(self, 'scipy.ndimage')
        self.ctx = ctx

    def gaussian_filter(self, input, sigma, *a, **k):
        ctx = self.ctx
        inp = np.asarray(input)
        if sigma == 0:                  # the identity
            return inp.copy()
        n = ctx.count('smooth')
        out = np.empty(inp.shape, dtype=object if ctx.symbolic else float)
        for i in np.ndindex(inp.shape):
            out[i] = ctx.fresh('smooth%d_%s' % (n, '_'.join(map(str, i))), 0, 1)
        ctx.smooth_calls.append((snap(inp), sigma, a, k, out.copy()))
        return out


def scipy_modules(ctx):
    s = types.ModuleType('scipy')
    s.__path__ = []
    s.ndimage = Ndimage(ctx)
    return {'scipy': s, 'scipy.ndimage': s.ndimage}


class RandomStub(types.ModuleType):
    """numpy.random: every draw is an arbitrary value of the distribution's support, and is recorded."""
    def __init__(self, ctx):
        types.ModuleType.__init__(self, 'numpy.random')
        self.ctx = ctx
        self.__dict__['Generator'] = RandomStub
        self.__dict__['RandomState'] = lambda *a, **k: self

    def _one(self, kind, args, lo, hi):
        c = self.ctx
        v = c.fresh('%s%d' % (kind, c.count('draw')), lo, hi)
        c.draws.append((kind, args, v))
        return v

    def _many(self, kind, args, lo, hi, size):
        if size is None:
            return self._one(kind, args, lo, hi)
        n = int(np.prod(size))
        a = np.empty(n, dtype=object if self.ctx.symbolic else float)
        for i in range(n):
            a[i] = self._one(kind, args, lo, hi)
        return a.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many('uniform', (low, high), low, high, size)

    def triangular(self, left, mode, right, size=None):
        if left > mode:
            raise ValueError('left > mode')
        if mode > right:
            raise ValueError('mode > right')
        if left == right:
            raise ValueError('left == right')
        return self._many('triangular', (left, mode, right), left, right, size)

    def random(self, size=None):
        return self._many('random', (), 0, 1, size)
    random_sample = rand = ranf = random

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        c = self.ctx
        if size is not None:
            c.unsupported('multivariate_normal with size')
        mean, cov = np.asarray(mean), np.asarray(cov)
        if all(type(v) in (int, float, np.float64) and v == 0 for v in cov.reshape(-1)):
            # a normal variate without variance is its mean
            c.draws.append(('mvn', (snap(mean), snap(cov)), mean.copy()))
            return mean.copy()
        n = c.count('mvn')
        out = np.empty(mean.shape, dtype=object if c.symbolic else float)
        for i in np.ndindex(mean.shape):
            out[i] = c.fresh('mvn%d_%d' % (n, i[0]), -4, 4)
        c.draws.append(('mvn', (snap(mean), snap(cov)), out.copy()))
        return out

    def default_rng(self, *a, **k):
        a = tuple(x for x in a + tuple(k.values()) if x is not None)
        if a:
            self.ctx.draws.append(('rng', a, None))
        return self

    def seed(self, *a):
        self.ctx.draws.append(('seed', a, None))

    def get_state(self, *a, **k):
        return ('state',)

    def set_state(self, *a, **k):
        self.ctx.draws.append(('seed', a, None))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        ctx = self.ctx

        def f(*a, **k):
            ctx.unsupported('random.' + n)
        return f


# ------------------------------------------------------------------------------------------------------------------ files and archives
class Blob:
    """serialized object"""
    def __init__(self, value):
        self.value = value


class StoreFile:
    def __init__(self, ctx, name, mode):
        self.ctx, self.name, self.mode = ctx, str(name), mode
        self.parts, self.closed = [], False
        if 'r' in mode:
            if self.name not in ctx.store:
                raise FileNotFoundError(self.name)
            self.parts = list(ctx.store[self.name])
        elif 'w' in mode or 'x' in mode:
            ctx.store[self.name] = self.parts
        else:
            ctx.unsupported('file mode ' + mode)

    def write(self, b):
        if self.closed or 'r' in self.mode:
            raise ValueError('not open for writing')
        self.parts.append(b)
        return 1

    def read(self, n=-1):
        p, self.parts = self.parts, []
        if len(p) == 1:
            return p[0]
        return p if p else b''

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def archive_modules(ctx):
    """bz2, gzip, lzma and pickle over an in-memory store; pickling is a deep copy"""
    import copy

    def opener(filename, mode='r', *a, **k):
        if isinstance(filename, StoreFile):
            return filename
        return StoreFile(ctx, filename, mode)
    out = {}
    for n, c in (('bz2', 'BZ2File'), ('gzip', 'GzipFile'), ('lzma', 'LZMAFile')):
        m = types.ModuleType(n)
        m.open = opener
        setattr(m, c, opener)
        m.compress = m.decompress = lambda b, *a, **k: b
        out[n] = m
    p = types.ModuleType('pickle')
    p.HIGHEST_PROTOCOL, p.DEFAULT_PROTOCOL = 5, 4

    def dumps(o, *a, **k):
        return Blob(copy.deepcopy(o))

    def loads(b, *a, **k):
        if not isinstance(b, Blob):
            raise EOFError('no pickled object')
        return copy.deepcopy(b.value)

    def load(f, *a, **k):
        for i, b in enumerate(f.parts):
            if isinstance(b, Blob):
                del f.parts[:i + 1]
                return loads(b)
        raise EOFError('no pickled object')
    p.dumps, p.loads, p.load = dumps, loads, load
    p.dump = lambda o, f, *a, **k: f.write(dumps(o)) and None
    p.PickleError = p.PicklingError = p.UnpicklingError = Exception
    out['pickle'] = p
    return out
