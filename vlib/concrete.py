"""Concrete mode: the same harness on the real code under the real numpy, with every input taken from an assignment.

`serve` is a small fork server: one JSON job per line on stdin, one JSON result per line on stdout; every job runs in a forked
child with its own scratch directory and a time limit."""
import importlib
import importlib.abc
import importlib.machinery
import json
import logging
import math
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types
import zlib

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


class Undefined(BaseException):
    pass


def make_ctx_class():
    import numpy as np
    from . import stubs
    from .ctx import BaseCtx, parse_numbers

    class ConcreteCtx(BaseCtx):
        symbolic = False

        def __init__(self, params, values, variant='float', strict=False):
            BaseCtx.__init__(self, params)
            self.values, self.variant, self.strict = values, variant, strict
            self.result = None
            self.used = {}
            self.printed = []
            self.virtual_modules = {}
            self._installed = False

        # -- modules
        def _install(self):
            if self._installed:
                return
            self._installed = True
            import builtins
            self.patch_attr(builtins, 'print', lambda *a, **k: self.printed.append(' '.join(str(x) for x in a)))
            for n, m in list(stubs.plotting_modules(self.plots).items()) + list(stubs.scipy_modules(self).items()):
                sys.modules[n] = m
            for n, m in self.virtual_modules.items():
                sys.modules[n] = m
                if '.' in n:
                    try:
                        setattr(importlib.import_module(n.rpartition('.')[0]), n.rpartition('.')[2], m)
                    except ImportError:
                        pass
            for n in ('uniform', 'triangular', 'random', 'random_sample', 'rand', 'ranf', 'multivariate_normal', 'default_rng', 'seed',
                      'Generator', 'RandomState', 'normal', 'standard_normal', 'choice', 'beta', 'exponential'):
                self.patch_attr(np.random, n, getattr(self.random, n))

        def mod(self, name):
            self._install()
            return importlib.import_module(name)

        def repo_modules(self):
            return [m for n, m in list(sys.modules.items()) if n.split('.')[0] in ('oneka', 'runme', 'data') and m is not None]

        @property
        def numpy(self):
            return np

        def unsupported(self, msg):
            raise Undefined(msg)

        def files(self):
            return sorted(os.path.relpath(os.path.join(d, f)) for d, _, fs in os.walk('.') for f in fs)

        def captured(self):
            return '\n'.join(self.printed)

        # -- inputs
        def _val(self, name, lo, hi, soft):
            if name in self.values:
                v = float(self.values[name])
            else:
                r = random.Random(zlib.crc32(name.encode()))
                v = r.uniform(*soft)
            self.used[name] = v
            return v

        def _conv(self, v):
            if self.variant == 'int' and v == int(v) and abs(v) < 1e15:
                return int(v)
            if self.variant == 'np':
                return np.float64(v)
            return v

        def real(self, name, lo=None, hi=None, gt=None, lt=None, soft=None, stub=False):
            if soft is None:
                soft = (0, 8) if (gt is not None and gt >= 0) or (lo is not None and lo >= 0) else (-8, 8)
            v = self._val(name, lo, hi, soft)
            for b, ok in ((lo, lambda b: v >= b - 1e-9 * max(1, abs(b))), (hi, lambda b: v <= b + 1e-9 * max(1, abs(b))),
                          (gt, lambda b: v > b), (lt, lambda b: v < b)):
                if b is not None and not ok(b):
                    self._assume_failed()
            return v if stub else self._conv(v)

        def fresh(self, name, lo=None, hi=None, soft=None):
            if soft is None:
                f = [x if isinstance(x, (int, float)) and math.isfinite(x) else None for x in (lo, hi)]
                soft = (f[0] if f[0] is not None else -8, f[1] if f[1] is not None else 8)
            v = self._val(name, lo, hi, soft)
            if lo is not None and v < lo:
                v = float(lo)
            if hi is not None and v > hi:
                v = float(hi)
            return v

        def integer(self, name, lo, hi):
            v = int(round(self._val(name, lo, hi, (lo if lo is not None else -5, hi if hi is not None else 5))))
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                self._assume_failed()
            return v

        def choice(self, name, n):
            v = int(self.values.get(name, 0))
            self.used[name] = v
            return v if v < n else n - 1

        def flag(self, name):
            return bool(self.choice(name, 2))

        def _assume_failed(self):
            self.result = ('assume', '', '')
            raise stubs.Stop()

        def assume(self, c):
            if isinstance(c, tuple):
                c = c[0] is not False
            if not c:
                self._assume_failed()

        def after_call(self):
            if self.result is not None:         # the code under test swallowed the end of the run
                raise stubs.Stop()

        def cut(self, msg):
            self.result = ('pass', '', 'bound: ' + msg) if self.labels else ('assume', '', 'bound: ' + msg)
            raise stubs.Stop()

        # -- conditions: three-valued (True / False / None = too close to call), wrapped in a 1-tuple
        TOL, FLOOR = 1e-6, 1.0

        def true(self, b):
            return (bool(b),)

        def eq(self, a, b, tol=None, scale=None):
            if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
                return (bool(a is b or (type(a) is type(b) and a == b)),)
            try:
                x, y = float(a), float(b)
            except (TypeError, ValueError):
                return (bool(a is b or a == b),)
            if not (math.isfinite(x) and math.isfinite(y)):
                return (x == y or (x != x and y != y),)
            t = self.TOL * max(self.FLOOR, abs(x), abs(y), abs(float(scale)) if scale is not None else 0.0) + (tol or 0.0)
            return (abs(x - y) <= t,)

        def _rel(self, a, b, lt):
            try:
                x, y = float(a), float(b)
            except (TypeError, ValueError):
                return (False,)
            r = x < y if lt else x <= y
            if self.strict or not (math.isfinite(x) and math.isfinite(y)):
                return (r,)
            if abs(x - y) <= self.TOL * max(1.0, abs(x), abs(y)):
                return (None,)
            return (r,)

        def lt(self, a, b, **k):
            return self._rel(a, b, True)

        def le(self, a, b, **k):
            return self._rel(a, b, False)

        def _c(self, a):
            return a if isinstance(a, tuple) else (bool(a),)

        def and_(self, a, b):
            a, b = self._c(a)[0], self._c(b)[0]
            return (False,) if a is False or b is False else (None,) if a is None or b is None else (True,)

        def not_(self, a):
            a = self._c(a)[0]
            return (None if a is None else not a,)

        def or_(self, a, b):
            return self.not_(self.and_(self.not_(a), self.not_(b)))

        def check(self, label, c, detail=''):
            self.labels.append(label)
            if self._c(c)[0] is False:
                self.result = ('fail', label, str(detail)[:400])
                raise stubs.Stop()

        # -- helpers
        def grad(self, f, args, i):
            x0 = float(args[i])

            def g(h):
                a = list(args)
                a[i] = x0 + h
                u = f(*a)
                a[i] = x0 - h
                return (u - f(*a)) / (2 * h)
            h = 1e-3
            d1, d2 = g(h), g(h / 2)
            return (4 * d2 - d1) / 3

        GRAD_TOL = 1e-4

        def sqrt(self, x):
            return math.sqrt(x) if x >= 0 else math.nan

        def log_(self, x):
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

        def exact(self, v):
            return float(v)

        def truncate(self, name, degree):
            pass

        def floor(self, x):
            return math.floor(x)

        pi = math.pi

        def numbers(self, text):
            return parse_numbers(text)

    return ConcreteCtx


_CLS = None


def run_job(job):
    """In the child process: returns the result dict."""
    global _CLS
    import warnings
    warnings.simplefilter('ignore')
    if _CLS is None:
        _CLS = make_ctx_class()
    from . import stubs
    from .harness_api import get_harness
    h = get_harness(job['harness'])
    ctx = _CLS(job['params'], job['values'], job.get('variant', 'float'), job.get('strict', False))
    if job.get('tight'):
        ctx.TOL, ctx.FLOOR = 1e-9, 0.01
    out = None
    try:
        ctx.start_logging()
        h.fn(ctx)
        out = ctx.result or ('pass', '', '')
    except stubs.Stop:
        out = ctx.result or ('pass', '', 'stopped')
    except Undefined as e:
        out = ('undefined', '', str(e))
    except BaseException as e:
        out = ('error', '', traceback.format_exc()[-1500:])
    return {'status': out[0], 'label': out[1], 'detail': out[2], 'labels': sorted(set(ctx.labels)), 'used': ctx.used}


def serve():
    sys.dont_write_bytecode = False
    scratch = os.environ['VERIF_SCRATCH']
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    sys.path.insert(0, REPO)
    import numpy as np      # noqa
    np.seterr(all='ignore')
    import logging.handlers  # noqa
    from . import stubs, ctx  # noqa
    from .harness_api import load_all
    load_all()
    # compile /repo once, in a throwaway child
    pid = os.fork()
    if pid == 0:
        try:
            class P:
                pass
            for n, m in stubs.plotting_modules([]).items():
                sys.modules[n] = m
            import types as t
            s = t.ModuleType('scipy'); s.__path__ = []; s.ndimage = t.ModuleType('scipy.ndimage')
            sys.modules['scipy'] = s
            sys.modules['scipy.ndimage'] = s.ndimage
            from .ctx import MODULES
            for n in MODULES:
                importlib.import_module(n)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    sys.dont_write_bytecode = True
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        n += 1
        d = os.path.join(scratch, 'job%d' % n)
        os.mkdir(d)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                os.chdir(d)
                os.mkdir('logs')
                res = run_job(job)
                with os.fdopen(w, 'w') as f:
                    json.dump(res, f)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(w)
        limit = time.time() + job.get('timeout', 20)
        buf = b''
        import select
        hang = False
        while True:
            left = limit - time.time()
            if left <= 0:
                hang = True
                break
            rl, _, _ = select.select([r], [], [], left)
            if not rl:
                hang = True
                break
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        if hang:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(r)
        os.waitpid(pid, 0)
        shutil.rmtree(d, ignore_errors=True)
        if hang:
            res = {'status': 'hang', 'label': '', 'detail': 'no answer in %s s' % job.get('timeout', 20), 'labels': []}
        else:
            try:
                res = json.loads(buf.decode())
            except ValueError:
                res = {'status': 'error', 'label': '', 'detail': 'child died', 'labels': []}
        out.write(json.dumps(res) + '\n')
        try:
            out.flush()
        except BrokenPipeError:
            return
    os.chdir('/')
    shutil.rmtree(scratch, ignore_errors=True)


class Client:
    def __init__(self):
        self.p = None
        self.lent = False           # the server belongs to the parent process

    def end_loan(self):
        if not self.lent:           # a server started here
            self.close()

    def start(self):
        self.lent = False
        self.scratch = tempfile.mkdtemp(prefix='verif_conc_')
        env = dict(os.environ, VERIF_SCRATCH=self.scratch, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
        env.pop('PYTHONDONTWRITEBYTECODE', None)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([PY, '-c', 'import sys; sys.path.insert(0, %r); from vlib.concrete import serve; serve()' % here],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=self.scratch)

    def run(self, job):
        if self.p is None or (not self.lent and self.p.poll() is not None):
            self.start()
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ''
        if not line:
            self.close()
            return {'status': 'error', 'label': '', 'detail': 'server died', 'labels': []}
        return json.loads(line)

    def close(self):
        if self.lent:               # left to its owner, who finds it dead
            self.p, self.lent = None, False
        elif self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None
            shutil.rmtree(self.scratch, ignore_errors=True)
