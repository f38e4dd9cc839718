"""Runs the modules of /repo from their current source with shimmed imports (symbolic mode)."""
import ast
import builtins
import logging
import os
import re
import sys
import types

from . import npshim
from .sym import Sym

REPO = os.environ.get('VERIF_REPO', '/repo')
_code = {}
FILES = set()


class Percent(ast.NodeTransformer):
    """a % b and x.astype(...) become calls, because they read the values in C."""
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'astype':
            return ast.copy_location(ast.Call(ast.Name('__astype__', ast.Load()), [f.value] + n.args, n.keywords), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__percent__', ast.Load()), [n.left, n.right], []), n)
        return n


CONV = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<type>[diouxXeEfFgGcrsa%])')


def percent(a, b):
    if not isinstance(a, str):
        return a % b
    vals = b if isinstance(b, tuple) else (b,)
    if not any(isinstance(v, Sym) for v in (b.values() if isinstance(b, dict) else vals)):
        return a % b
    out, pos, i = [], 0, 0

    def nxt():
        nonlocal i
        if i >= len(vals):
            raise TypeError('not enough arguments for format string')
        i += 1
        return vals[i - 1]
    for m in CONV.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        t, fl = m['type'], m['flags']
        if t == '%':
            out.append('%')
            continue
        w = str(nxt()) if m['width'] == '*' else m['width'] or ''
        p = str(nxt()) if m['prec'] == '*' else m['prec']
        v = b[m['key']] if m['key'] is not None else nxt()
        if not isinstance(v, Sym):
            out.append(('%' + fl + w + ('.' + p if p is not None else '') + t) % ((v,) if isinstance(v, tuple) else v))
        elif t in 'rsa':
            out.append((str(v) if t == 's' else repr(v)).rjust(int(w or 0)))
        else:
            if t in 'diu':
                v, t, p = v.__trunc__(), 'd', None
            spec = ('<' if '-' in fl else '') + ('+' if '+' in fl else ' ' if ' ' in fl else '') + ('0' if '0' in fl else '') + w + ('.' + p if p is not None else '') + t
            out.append(format(v, spec))
    out.append(a[pos:])
    if not isinstance(b, dict) and i < len(vals):
        raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)


class Record(logging.LogRecord):
    def getMessage(self):
        return percent(str(self.msg), self.args) if self.args else str(self.msg)


def source_code(path):
    c = _code.get(path)
    if c is None:
        with open(path, 'rb') as f:
            tree = ast.fix_missing_locations(Percent().visit(ast.parse(f.read(), path)))
            c = _code[path] = compile(tree, path, 'exec', dont_inherit=True)
        FILES.add(path)
    return c


class Loader:
    def __init__(self, env):
        self.env = env
        self.mods = {}
        self.np = npshim.NPShim(env)
        self.math = npshim.make_math()
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['float'] = npshim.FloatShim
        b['isinstance'] = npshim.sym_isinstance
        b['__percent__'] = percent
        b['__astype__'] = npshim.astype
        logging.setLogRecordFactory(Record)
        b['print'] = lambda *a, **k: env.log.append(('print', ' '.join(str(x) for x in a)))
        b['input'] = lambda *a: env.unsupported('input()')
        b['open'] = env.open
        self.builtins = b
        il = types.ModuleType('importlib')
        il.import_module = self.import_dotted
        cp = types.ModuleType('contextlib')
        self.fake = dict(env.fake_modules)
        self.fake.update({'numpy': self.np, 'math': self.math, 'importlib': il})

    def import_dotted(self, name, package=None):
        self._load(name)
        return self.mods[name] if name in self.mods else self.fake.get(name) or __import__(name, fromlist=['x'])

    def _path(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        return None, False

    def is_repo(self, name):
        top = name.split('.')[0]
        if name in self.env.virtual_modules or top in ('oneka', 'data', 'runme'):
            return True
        return self._path(top)[0] is not None and top not in sys.builtin_module_names and top not in ('tests',)

    def _load(self, name):
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            n = '.'.join(parts[:i])
            if n in self.mods:
                continue
            if n in self.env.virtual_modules:
                self.mods[n] = self.env.virtual_modules[n]
            elif n in self.fake:
                self.mods[n] = self.fake[n]
            elif self.is_repo(n):
                path, pkg = self._path(n)
                if path is None:
                    raise ModuleNotFoundError('No module named %r' % n, name=n)
                m = types.ModuleType(n)
                m.__file__ = path
                m.__builtins__ = self.builtins
                m.__package__ = n if pkg else n.rpartition('.')[0]
                if pkg:
                    m.__path__ = [os.path.dirname(path)]
                self.mods[n] = m
                try:
                    exec(source_code(path), m.__dict__)
                except BaseException:
                    self.mods.pop(n, None)
                    raise
            else:
                raise ModuleNotFoundError('No module named %r' % n, name=n)
            if i > 1:
                setattr(self.mods['.'.join(parts[:i - 1])], parts[i - 1], self.mods[n])

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals.get('__package__', '')
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'numpy':
            if not fromlist or name == 'numpy':
                return self.np
            o = self.np
            for p in name.split('.')[1:]:
                o = getattr(o, p)
            return o
        if name in self.fake or top in self.fake:
            if fromlist:
                o = self.fake.get(name)
                if o is None:
                    o = self.fake[top]
                    for p in name.split('.')[1:]:
                        o = getattr(o, p)
                return o
            return self.fake.get(top) or self.fake[name]
        if self.is_repo(name):
            self._load(name)
            if fromlist:
                m = self.mods[name]
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                        try:
                            self._load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def mod(self, name):
        self._load(name)
        return self.mods[name]

    def repo_modules(self):
        return [m for n, m in self.mods.items() if n.split('.')[0] in ('oneka', 'runme', 'data')]
