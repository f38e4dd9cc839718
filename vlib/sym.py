"""Symbolic reals and the path explorer.

A Sym is a Laurent polynomial with rational coefficients over "atoms": inputs, pi, square roots, logarithms, reciprocals of
polynomials ...  Comparisons become SymBool; using one in a branch (`__bool__`) asks the SMT solver which sides are feasible
and forks the path (by re-execution with a decision prefix).
"""
import math
import os
import random
import sys
import threading
import time
from fractions import Fraction as Fr
from functools import lru_cache

_Z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _import_z3():
    try:
        import z3
        return z3
    except ImportError:
        pass
    import importlib.util
    spec = importlib.util.spec_from_file_location("z3", _Z + "/z3/__init__.py", submodule_search_locations=[_Z + "/z3"])
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
    return m


z3 = _import_z3()


class Abort(BaseException):
    """Ends the current path (infeasible, beyond the bound, or engine budget)."""
    def __init__(self, kind, msg=""):
        BaseException.__init__(self, kind, msg)
        self.kind, self.msg = kind, msg


PI = math.pi


@lru_cache(maxsize=100000)
def coerce_float(f):
    """('r', Fraction) | ('pi', Fraction) | ('ipi', Fraction): the real number that a double in the source stands for."""
    if f == int(f) if abs(f) < 1e18 else False:
        return ('r', Fr(int(f)))
    g = Fr(f).limit_denominator(10 ** 6)
    if g != 0 and float(g) == f:
        return ('r', g)
    for kind, h in (('pi', f / PI), ('ipi', f * PI)):
        g = Fr(h).limit_denominator(2000)
        if g != 0:
            v = float(g) * PI if kind == 'pi' else float(g) / PI
            if abs(v - f) <= 5e-16 * abs(f):
                return (kind, g)
    return ('r', Fr(f))


class Atom:
    __slots__ = ('id', 'kind', 'name', 'z', 'poly', 'n', 'pos', 'defined', 'lo', 'hi', 'key')

    def __init__(self, id, kind, name, poly=None, n=None, pos=None):
        self.id, self.kind, self.name, self.poly, self.n, self.pos = id, kind, name, poly, n, pos
        self.z = None
        self.defined = False
        self.lo = self.hi = None


E = None          # the current Engine


def set_engine(e):
    global E
    E = e


# ----------------------------------------------------------------------------- polynomials
ONE = ()


def pconst(c):
    c = Fr(c)
    return {ONE: c} if c else {}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) + e
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if m == ONE:
            return pscale(q, c)
    r = {}
    tr = E.trunc
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            if tr is not None and any(i == tr[0] and e > tr[1] for i, e in m):
                continue
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > E.max_terms:
        E.abort('budget', 'polynomial with %d terms' % len(r))
    return normalize(r)


def _bad(m):
    at = E.atoms
    for i, e in m:
        a = at[i]
        k = a.kind
        if k == 'root':
            if e < 0 or e >= a.n:
                return (i, e)
        elif k == 'den':
            if e > 0:
                return (i, e)
    return None


def normalize(p):
    """Reduce powers of root atoms and positive powers of reciprocal atoms."""
    if not E.has_special:
        return p
    todo = None
    for m in p:
        if _bad(m):
            todo = True
            break
    if not todo:
        return p
    out = {}
    for m, c in p.items():
        b = _bad(m)
        if not b:
            out = padd(out, {m: c})
            continue
        i, e = b
        a = E.atoms[i]
        rest = {tuple(x for x in m if x[0] != i): c}
        if a.kind == 'root':
            k, r = divmod(e, a.n)
            t = ppow(a.poly, k)
            if r:
                t = pmul(t, {((i, r),): Fr(1)})
        else:
            t = ppow(a.poly, e)
        out = padd(out, pmul(rest, t))
    return out


def ppow(p, k):
    if k < 0:
        return ppow(pinv(p), -k)
    r = pconst(1)
    b = p
    while k:
        if k & 1:
            r = pmul(r, b)
        k >>= 1
        if k:
            b = pmul(b, b)
    return r


def pkey(p):
    return frozenset(p.items())


def split_content(p):
    """p == c * m * q with q primitive (leading coefficient 1, no common monomial)."""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for i in list(common):
            e = d.get(i, 0)
            common[i] = min(common[i], e)
        for i, e in d.items():
            if i not in common:
                common[i] = min(0, e)
    common = tuple(sorted((i, e) for i, e in common.items() if e))
    inv = tuple((i, -e) for i, e in common)
    lead = max(ms)
    c = p[lead]
    q = {mmul(m, inv): v / c for m, v in p.items()}
    return c, common, q


def pinv(p):
    """1/p; the caller has excluded p == 0."""
    if not p:
        raise ZeroDivisionError('division by zero')
    if len(p) == 1:
        (m, c), = p.items()
        return normalize({tuple((i, -e) for i, e in m): 1 / c})
    c, m, q = split_content(p)
    if len(q) == 1:
        return normalize({tuple((i, -e) for i, e in m): 1 / c})
    n = normalize(q)
    if n is not q and n != q:                   # reciprocal atoms taken out of the content multiply back into the rest
        return pmul(normalize({tuple((i, -e) for i, e in m): 1 / c}), pinv(n))
    a = E.den_atom(q)
    return normalize({mmul(tuple((i, -e) for i, e in m), ((a.id, -1),)): 1 / c})


def const_of(p):
    if not p:
        return Fr(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def syntactic_pos(p):
    """True if p >= 0 for syntactic reasons and p > 0 unless all terms vanish: even powers / positive atoms, positive coefficients."""
    for m, c in p.items():
        if c < 0:
            return False
        for i, e in m:
            if e % 2 and E.atoms[i].pos is not True and not (E.atoms[i].kind == 'root'):
                return False
    return True


def clear(p):
    """Return (q, sign): q polynomial without negative exponents / den atoms, with p ~ 0 iff sign*q ~ 0 for ~ in < <= = (sign None when
    every clearing factor was made even)."""
    sign = 1
    guard = 0
    while True:
        guard += 1
        if guard > 60:
            E.abort('budget', 'clear')
        neg = {}
        for m in p:
            for i, e in m:
                if e < 0 and e < neg.get(i, 0):
                    neg[i] = e
        if not neg:
            return p, sign
        # clear the youngest atom first (its polynomial only refers to older atoms)
        i = max(neg)
        e = -neg[i]
        a = E.atoms[i]
        if e % 2:
            s = E.atom_sign(a)
            if s is None:
                e += 1
            elif s < 0:
                sign = -sign
        out = {}
        base = a.poly if a.kind == 'den' else {((i, 1),): Fr(1)}
        groups = {}
        for m, c in p.items():
            d = dict(m)
            x = d.pop(i, 0)
            groups.setdefault(x + e, {})[tuple(sorted(d.items()))] = c
        for k, g in groups.items():
            out = padd(out, pmul(g, ppow(base, k)))
        p = out


def zpoly(p):
    ts = []
    for m, c in sorted(p.items()):
        fs = []
        for i, e in m:
            v = E.zvar(E.atoms[i])
            fs += [v] * e
        if c != 1 or not fs:
            fs = [z3.RealVal(str(c))] + fs
        ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    if not ts:
        return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


# ----------------------------------------------------------------------------- symbolic values
def is_nonfinite(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def lift(x):
    """Sym of a number, or None when x is not a number."""
    if type(x) is Sym:
        return x
    if isinstance(x, SymBool):
        return Sym(pconst(1 if bool(x) else 0))
    if isinstance(x, bool):
        return Sym(pconst(int(x)))
    if isinstance(x, int):
        return Sym(pconst(x))
    if isinstance(x, Fr):
        return Sym(pconst(x))
    if isinstance(x, float):        # includes np.float64
        x = float(x)
        if is_nonfinite(x):
            return None
        k, g = coerce_float(x)
        if k == 'r':
            return Sym(pconst(g))
        a = E.pi_atom()
        return Sym({((a.id, 1 if k == 'pi' else -1),): g})
    t = type(x).__module__
    if t == 'numpy':
        import numpy as np
        if isinstance(x, np.bool_):
            return Sym(pconst(int(bool(x))))
        if isinstance(x, np.integer):
            return Sym(pconst(int(x)))
        if isinstance(x, np.floating):
            return lift(float(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return lift(x.item())
    return None


class Sym:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    # ---- arithmetic
    def _bin(self, o, f, inf):
        t = type(o)
        if t is not Sym:
            if isinstance(o, float) and is_nonfinite(float(o)):
                return inf(float(o))
            o2 = lift(o)
            if o2 is None:
                return NotImplemented
            o = o2
        return f(self.p, o.p)

    def __add__(self, o):
        return self._bin(o, lambda a, b: Sym(padd(a, b)), lambda x: x)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: Sym(padd(a, b, -1)), lambda x: -x)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: Sym(padd(b, a, -1)), lambda x: x)

    def _inf_mul(self, x):
        if x != x:
            return x
        if self > 0:
            return x
        if self < 0:
            return -x
        return math.nan

    def __mul__(self, o):
        return self._bin(o, lambda a, b: Sym(pmul(a, b)), self._inf_mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, _div, lambda x: x if x != x else 0)

    def __rtruediv__(self, o):
        def inf(x):
            if x != x:
                return x
            if self > 0:
                return x
            if self < 0:
                return -x
            raise ZeroDivisionError('division by zero')
        return self._bin(o, lambda a, b: _div(b, a), inf)

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __rfloordiv__(self, o):
        return (o / self).__floor__()

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def __neg__(self):
        return Sym(pscale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        if syntactic_pos(self.p):
            return self
        return self if self >= 0 else -self

    def __pow__(self, k, mod=None):
        ks = lift(k)
        if ks is None:
            return NotImplemented
        c = const_of(ks.p)
        if c is None:
            b = const_of(self.p)
            if b == 1:
                return Sym(pconst(1))
            E.unsupported('symbolic exponent')
        if c.denominator == 1:
            c = int(c)
            if c < 0:
                return _div(pconst(1), ppow(self.p, -c))
            return Sym(ppow(self.p, c))
        return sym_root(self, c.denominator) ** c.numerator

    def __rpow__(self, o):
        E.unsupported('symbolic exponent')

    # ---- comparisons
    def _cmp(self, o, rel, swap):
        if type(o) is not Sym:
            if isinstance(o, float) and is_nonfinite(float(o)):
                x = float(o)
                if x != x:
                    return rel == 'ne'
                if rel in ('eq', 'ne'):
                    return rel == 'ne'
                return (x > 0) != swap
            o2 = lift(o)
            if o2 is None:
                return NotImplemented
            o = o2
        d = padd(o.p, self.p, -1) if swap else padd(self.p, o.p, -1)
        return compare(d, rel)

    def __lt__(self, o):
        return self._cmp(o, 'lt', False)

    def __le__(self, o):
        return self._cmp(o, 'le', False)

    def __gt__(self, o):
        return self._cmp(o, 'lt', True)

    def __ge__(self, o):
        return self._cmp(o, 'le', True)

    def __eq__(self, o):
        return self._cmp(o, 'eq', False)

    def __ne__(self, o):
        return self._cmp(o, 'ne', False)

    def __hash__(self):
        return 7919

    def __bool__(self):
        r = compare(self.p, 'ne')
        return r if isinstance(r, bool) else bool(r)

    # ---- conversions
    def concrete(self):
        return const_of(self.p)

    def __float__(self):
        c = self.concrete()
        if c is not None:
            return float(c)
        E.unsupported('float() of a symbolic value')

    def __complex__(self):
        E.unsupported('complex() of a symbolic value')

    def __index__(self):
        c = self.concrete()
        if c is None:
            if not E.is_integral(self.p):
                E.unsupported('symbolic non-integer used as an index')
            c = E.concretize(self)
        if c.denominator != 1:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(c)

    def __trunc__(self):
        if self >= 0:
            return self.__floor__()
        return -((-self).__floor__())

    def __int__(self):
        c = self.concrete()
        if c is not None:
            return int(c)
        t = self.__trunc__()
        return t.__index__() if isinstance(t, Sym) else int(t)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        r = sym_floor(-self)
        return -r

    def __round__(self, n=None):
        s = self if not n else self * Fr(10) ** n
        r = sym_floor(s + Fr(1, 2))
        return r if not n else r / Fr(10) ** n

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        c = self.concrete()
        return repr(float(c)) if c is not None else E.token(self, '')

    __str__ = __repr__

    def __format__(self, spec):
        c = self.concrete()
        if c is not None:
            return format(int(c) if (c.denominator == 1 and spec.endswith('d')) else float(c), spec)
        return E.token(self, spec)

    # ---- numpy-like methods
    def sqrt(self):
        return sym_sqrt(self)

    def log(self):
        return sym_log(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def copy(self):
        return self

    def is_integer(self):
        return E.is_integral(self.p)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('astype', 'shape', 'ndim', 'dtype', 'size', 'flatten', 'ravel', 'reshape', 'tolist', 'sum', 'max', 'min', 'mean', 'any', 'all', 'round', 'T'):
            import numpy as np
            a = np.empty((), dtype=object)
            a[()] = self
            if n in ('tolist',):
                return lambda: self
            return getattr(a, n)
        raise AttributeError(n)


def _div(a, b):
    cb = const_of(b)
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError('division by zero')
        return Sym(pscale(a, 1 / cb))
    if not E.known_nonzero(b):
        z = compare(b, 'eq')
        if z is True or (z is not False and bool(z)):
            raise ZeroDivisionError('division by zero')
        E.nonzero.add(pkey(b))
    return Sym(pmul(a, pinv(b)))


def _isqrt_fr(c, n=2):
    def r(k):
        x = round(k ** (1.0 / n))
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** n == k:
                return y
        return None
    if c < 0 or c.numerator > 10 ** 14 or c.denominator > 10 ** 14:
        return None
    a, b = r(c.numerator), r(c.denominator)
    return None if a is None or b is None else Fr(a, b)


def sym_sqrt(x, neg=None):
    s = lift(x)
    if s is None:
        return math.sqrt(x) if not (isinstance(x, float) and x != x) else x
    p = s.p
    if not syntactic_pos(p):
        b = compare(p, 'lt')
        if b is True or (b is not False and bool(b)):
            if neg == 'raise':
                raise ValueError('math domain error')
            return math.nan
    return sym_root(s, 2, checked=True)


def sym_root(s, n, checked=False):
    p = s.p
    if not p:
        return Sym({})
    if not checked and n % 2 == 0:
        b = compare(p, 'lt')
        if b is True or (b is not False and bool(b)):
            return math.nan
    if n % 2 == 1 and not checked:
        b = compare(p, 'lt')
        if b is True or (b is not False and bool(b)):
            return math.nan        # numpy semantics for fractional powers of negatives
    if not syntactic_pos(p):
        pass
    c, m, q = split_content(p)
    q = normalize(q)
    if c < 0:
        c, q = -c, pscale(q, -1)
    rc = _isqrt_fr(c, n)
    out = pconst(1)
    if rc is None:
        q = pscale(q, c)
        rc = Fr(1)
    # pull out even powers of atoms known to be positive
    keep = []
    for i, e in m:
        a = E.atoms[i]
        if e % n == 0 and (a.pos is True or n % 2):
            out = pmul(out, {((i, e // n),): Fr(1)})
        elif e % n == 0 and len(q) == 1 and const_of(q) is not None and len(m) == 1:
            v = abs(Sym({((i, 1),): Fr(1)}))
            out = pmul(out, ppow(v.p, e // n))
        else:
            keep.append((i, e))
    q = normalize({mmul(k, tuple(keep)): v for k, v in q.items()})
    out = pscale(out, rc)
    cq = const_of(q)
    if cq is not None:
        r = _isqrt_fr(cq, n)
        if r is not None:
            return Sym(pscale(out, r))
    a = E.root_atom(q, n)
    return Sym(pmul(out, {((a.id, 1),): Fr(1)}))


def sym_log(x):
    s = lift(x)
    if s is None:
        return math.log(x) if x == x else x
    p = s.p
    c = const_of(p)
    if c is not None and c > 0:
        if c == 1:
            return Sym({})
    else:
        b = compare(p, 'le')
        if b is True or (b is not False and bool(b)):
            z = compare(p, 'eq')
            if z is True or (z is not False and bool(z)):
                return -math.inf
            return math.nan
    if len(p) == 1:
        (m, cc), = p.items()
        if cc == 1 and len(m) == 1:
            i, e = m[0]
            a = E.atoms[i]
            if a.kind == 'root':
                return sym_log(Sym(a.poly)) * Fr(e, a.n)
            if a.kind == 'den':
                if E.atom_sign(a) == 1:
                    return sym_log(Sym(a.poly)) * e
            elif e != 1 and E.atom_sign(a) == 1:
                return sym_log(Sym({((i, 1),): Fr(1)})) * e
    return Sym({((E.uf_atom('log', p).id, 1),): Fr(1)})


def sym_floor(s):
    p = s.p
    c = const_of(p)
    if c is not None:
        return int(c.numerator // c.denominator)
    if E.is_integral(p):
        return s
    # move integer constant out
    k = p.get(ONE, Fr(0))
    ki = k.numerator // k.denominator
    q = padd(p, pconst(-ki))
    a = E.floor_atom(q)
    return Sym(padd({((a.id, 1),): Fr(1)}, pconst(ki)))


def compare(d, rel):
    """d rel 0 as bool or SymBool."""
    c = const_of(d)
    if c is not None:
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[rel]
    # floor atoms with an integer offset translate exactly to their argument
    if len(d) <= 2:
        ms = [m for m in d if m != ONE]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            a = E.atoms[ms[0][0][0]]
            k = d[ms[0]]
            if a.kind == 'floor' and abs(k) == 1:
                c0 = d.get(ONE, Fr(0))
                P = a.poly
                up = lambda v: -((-v.numerator) // v.denominator)       # ceil
                dn = lambda v: v.numerator // v.denominator             # floor
                if rel in ('eq', 'ne'):
                    t = -c0 * k
                    if t.denominator != 1:
                        return rel == 'ne'
                    lo = compare(padd(pconst(t), P, -1), 'le')
                    hi = compare(padd(P, pconst(t + 1), -1), 'lt')
                    r = band(lo, hi)
                    return r if rel == 'eq' else bnot(r)
                if k == 1:      # n + c0 < 0
                    b = up(-c0) if rel == 'lt' else dn(-c0) + 1
                    return compare(padd(P, pconst(b), -1), 'lt')
                b = dn(c0) + 1 if rel == 'lt' else up(c0)               # -n + c0 < 0
                return compare(padd(pconst(b), P, -1), 'le')
    q, s = clear(d)
    if s < 0:
        q = pscale(q, -1)
    c = const_of(q)
    if c is not None:
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[rel]
    # scale to primitive form so that equal conditions become equal expressions
    lead = max(q)
    q = pscale(q, 1 / abs(q[lead]))
    if rel in ('eq', 'ne') and q[lead] < 0:
        q = pscale(q, -1)
    return SymBool(q, rel)


def zbool(b):
    if isinstance(b, SymBool):
        return b.z
    return z3.BoolVal(bool(b))


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return SymBool(None, None, kids=(a, b))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bnot(a):
    if isinstance(a, bool):
        return not a
    return ~a


class SymBool:
    __slots__ = ('q', 'rel', '_z', 'kids')
    NEG = {'eq': 'ne', 'ne': 'eq'}

    def __init__(self, q, rel, z=None, kids=None):
        self.q, self.rel, self._z, self.kids = q, rel, z, kids      # kids: (a, b) = a and b;  (a,) = not a

    @property
    def z(self):
        if self._z is None:
            if self.kids is not None:
                self._z = z3.Not(self.kids[0].z) if len(self.kids) == 1 else z3.And(zbool(self.kids[0]), zbool(self.kids[1]))
                return self._z
            e = zpoly(self.q)
            self._z = {'lt': lambda: e < 0, 'le': lambda: e <= 0, 'eq': lambda: e == 0, 'ne': lambda: e != 0}[self.rel]()
        return self._z

    def __bool__(self):
        return E.branch(self)

    def __invert__(self):
        if self.rel is not None:
            if self.rel in self.NEG:
                return SymBool(self.q, self.NEG[self.rel])
            return SymBool(pscale(self.q, -1), 'le' if self.rel == 'lt' else 'lt')
        if self.kids is not None and len(self.kids) == 1:
            return self.kids[0]
        return SymBool(None, None, kids=(self,))

    def _o(self, o):
        if isinstance(o, SymBool):
            return o
        if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'):
            return bool(o)
        return None

    def __and__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else bor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) != bool(o)
    __rxor__ = __xor__

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        return bool(self) == (bool(o) if self._o(o) is not None else o)

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __repr__(self):
        return 'SymBool(%s)' % (self.z,)

    def __format__(self, spec):
        return format(bool(self), spec)


# ----------------------------------------------------------------------------- engine (one per path)
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.by = {}

    def add(self, o):
        self.queries += o.queries
        self.solver_s += o.solver_s
        self.unknown += o.unknown
        for k, v in o.by.items():
            self.by[k] = self.by.get(k, 0) + v


class Watchdog:
    """Ends a solver call that does not honour its own time limit."""
    limit = None
    pid = None

    @classmethod
    def loop(cls):
        while True:
            time.sleep(0.25)
            t = cls.limit
            if t is not None and time.time() > t:
                z3.main_ctx().interrupt()

    @classmethod
    def start(cls):
        if cls.pid != os.getpid():
            cls.pid = os.getpid()
            threading.Thread(target=cls.loop, daemon=True).start()


def scheck(s, ms):
    Watchdog.start()
    Watchdog.limit = time.time() + 1.0 + 2e-3 * ms
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown
    finally:
        Watchdog.limit = None


class Engine:
    """State of one symbolic path."""
    BR_MS = 2000
    max_terms = 40000
    NWIT = 24

    def __init__(self, prefix, stats, deadline, max_forks=400):
        self.prefix = prefix
        self.decisions = []
        self.pending = []
        self.stats = stats
        self.deadline = deadline
        self.max_forks = max_forks
        self.atoms = []
        self.byname = {}
        self.inputs = {}            # name -> Sym | concrete choice
        self.cache = {}
        self.has_special = False
        self.trunc = None
        self.aborted = None
        self.cons = []
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', self.BR_MS)
        self.model = None
        self.nonzero = set()
        self.signs = {}
        self.tokens = {}
        self.counter = {}
        self.unknown_branch = 0
        self.conscache = {}
        self.nonlinear = False
        self.lazy = []
        self.lossy = False
        self.wrng = random.Random(12345)
        self.wit = [{} for _ in range(self.NWIT)]
        self.wcons = []
        self.wtries = 0

    # -- control
    def abort(self, kind, msg=""):
        if self.aborted is None:
            self.aborted = Abort(kind, msg)
        raise Abort(kind, msg)

    def unsupported(self, msg):
        self.abort('unsupported', msg)

    def check_abort(self):
        if self.aborted is not None:
            raise Abort(self.aborted.kind, self.aborted.msg)
        if time.time() > self.deadline:
            self.abort('time', 'task deadline')

    # -- atoms
    def _new(self, kind, name, **kw):
        a = Atom(len(self.atoms), kind, name, **kw)
        self.atoms.append(a)
        return a

    def input_atom(self, name, pos=None):
        a = self._new('in', name, pos=pos)
        return a

    def pi_atom(self):
        a = self.cache.get('pi')
        if a is None:
            a = self.cache['pi'] = self._new('pi', 'PI', pos=True)
        return a

    def den_atom(self, q):
        k = ('den', pkey(q))
        a = self.cache.get(k)
        if a is None:
            pos = True if syntactic_pos(q) else None
            a = self.cache[k] = self._new('den', 'den%d' % len(self.atoms), poly=q, pos=pos)
            self.has_special = True
        return a

    def root_atom(self, q, n):
        k = ('root', n, pkey(q))
        a = self.cache.get(k)
        if a is None:
            a = self.cache[k] = self._new('root', 'root%d' % len(self.atoms), poly=q, n=n)
            self.has_special = True
        return a

    def floor_atom(self, q):
        k = ('floor', pkey(q))
        a = self.cache.get(k)
        if a is None:
            a = self.cache[k] = self._new('floor', 'floor%d' % len(self.atoms), poly=q)
        return a

    def rounded(self, x, bits):
        """x in a narrower floating-point format: x (1 + d) with |d| at most half a unit in the last place."""
        s = lift(x)
        if s is None:
            return x
        import numpy as np
        c = const_of(s.p)
        if c is not None:
            return Sym(pconst(Fr(float((np.float32 if bits == 24 else np.float16)(float(c))))))
        self.lossy = True
        k = ('round', bits, pkey(s.p))
        r = self.cache.get(k)
        if r is None:
            a = self._new('round', 'rnd%d' % len(self.atoms))
            d = Sym({((a.id, 1),): Fr(1)})
            h = Fr(1, 2 ** bits)
            self.assume(compare(padd(d.p, pconst(h), -1), 'le'))
            self.assume(compare(padd(pconst(-h), d.p, -1), 'le'))
            r = self.cache[k] = s * (1 + d)
            self.cache[('round', bits, pkey(r.p))] = r
        return r

    def uf_atom(self, f, p):
        k = (f, pkey(p))
        a = self.cache.get(k)
        if a is None:
            a = self.cache[k] = self._new('uf:' + f, '%s%d' % (f, len(self.atoms)), poly=p)
        return a

    def is_integral(self, p):
        for m, c in p.items():
            if c.denominator != 1:
                return False
            for i, e in m:
                if e < 0 or self.atoms[i].kind not in ('floor', 'int'):
                    return False
        return True

    def zvar(self, a):
        if a.z is None:
            if a.kind in ('floor', 'int'):
                a.z = z3.ToReal(z3.Int(a.name))
            else:
                a.z = z3.Real(a.name)
        if not a.defined:
            a.defined = True
            if a.kind == 'pi':
                self._assert(a.z > z3.RealVal('3.14159265358979'))
                self._assert(a.z < z3.RealVal('3.1415926535898'))
            elif a.kind == 'root':
                self._assert(a.z >= 0)
                t = self._new('in', a.name + '_pow')                     # stands for a^n, so that it is not reduced to poly again
                t.z, t.defined = z3.Product(*([a.z] * a.n)), True
                d, s = clear(padd({((t.id, 1),): Fr(1)}, a.poly, -1))
                self._assert(zpoly(d) == 0)
            elif a.kind == 'floor':
                lo, s1 = clear(padd({((a.id, 1),): Fr(1)}, a.poly, -1))
                self._assert(zpoly(pscale(lo, s1)) <= 0)
                hi, s2 = clear(padd(padd(a.poly, {((a.id, 1),): Fr(1)}, -1), pconst(-1)))
                self._assert(zpoly(pscale(hi, s2)) < 0)
            elif a.kind == 'den':
                E.abort('internal', 'den atom reached the solver')
        return a.z

    def _assert(self, c):
        self.cons.append(c)
        self.solver.add(c)
        self.model = None if self.model is None else self._keep_model(c)

    # -- numeric witnesses of the path: they only save solver calls (a side with a witness is kept without asking)
    def wval(self, a, w):
        v = w.get(a.id)
        if v is None:
            k = a.kind
            if k == 'den':
                v = self.weval(a.poly, w)[0]
            elif k == 'root':
                x = self.weval(a.poly, w)[0]
                v = x ** (1.0 / a.n) if x >= 0 else math.nan
            elif k == 'pi':
                v = PI
            elif k == 'floor':
                x = self.weval(a.poly, w)[0]
                v = float(math.floor(x)) if x == x and abs(x) < 1e15 else math.nan
            elif k == 'uf:log':
                x = self.weval(a.poly, w)[0]
                v = math.log(x) if x > 0 else math.nan
            else:
                lo, hi = (a.lo, a.hi) if a.lo is not None else (-8, 8)
                v = float(self.wrng.randint(math.ceil(lo), math.floor(hi))) if k == 'int' else self.wrng.uniform(lo, hi)
            w[a.id] = v
        return v

    def weval(self, p, w):
        t = mag = 0.0
        try:
            for m, c in p.items():
                v = float(c)
                for i, e in m:
                    v *= self.wval(self.atoms[i], w) ** e
                t += v
                mag += abs(v)
        except (ZeroDivisionError, OverflowError):
            return math.nan, math.nan
        return t, mag

    def wtruth(self, sb, w):
        """True / False / None (too close) of a condition under a witness."""
        if isinstance(sb, bool):
            return sb
        if sb.kids is not None:
            if len(sb.kids) == 1:
                r = self.wtruth(sb.kids[0], w)
                return None if r is None else not r
            a, b = self.wtruth(sb.kids[0], w), self.wtruth(sb.kids[1], w)
            return False if a is False or b is False else None if a is None or b is None else True
        if sb.rel is None:
            return None
        t, mag = self.weval(sb.q, w)
        if not (t == t) or mag == math.inf:
            return None
        if abs(t) <= 1e-9 * mag:
            return None
        return {'lt': t < 0, 'le': t < 0, 'eq': False, 'ne': True}[sb.rel]

    def wassert(self, sb):
        self.wcons.append(sb)
        self.wit = [w for w in self.wit if self.wtruth(sb, w)]
        if len(self.wit) < 3 and self.wtries < 400:
            for _ in range(60):
                self.wtries += 1
                w = {}
                if all(self.wtruth(c, w) for c in self.wcons):
                    self.wit.append(w)
                    if len(self.wit) >= 6:
                        break

    def wmodel(self, m):
        """Adopt a solver model as witness if it also works numerically."""
        if len(self.wit) >= 6:
            return
        w = {}
        for a in self.atoms:
            if a.kind in ('in', 'int') and a.z is not None and not a.name.endswith('_pow'):
                try:
                    w[a.id] = float(zval(m.eval(a.z, model_completion=True)))
                except OverflowError:
                    return
        if all(self.wtruth(c, w) for c in self.wcons):
            self.wit.append(w)

    def assert_sb(self, sb):
        if isinstance(sb, SymBool):
            self._assert(sb.z)
            self.wassert(sb)

    def _keep_model(self, c):
        try:
            v = self.model.eval(c, model_completion=True)
            return self.model if z3.is_true(v) else None
        except z3.Z3Exception:
            return None

    # -- solver
    def check(self, extra=(), ms=None, want_model=True, final=False):
        """'sat' (model), 'unsat', 'unknown' for path constraints + extra."""
        self.check_abort()
        ms = ms or self.BR_MS
        extra = list(extra)
        t0 = time.time()
        self.stats.queries += 1
        res, model = 'unknown', None
        try:
            s = self.solver
            s.set('timeout', int(ms if not self.nonlinear else min(ms, 400 if not final else 3000)))
            s.push()
            for e in extra:
                s.add(e)
            r = scheck(s, ms)
            res = str(r)
            if res == 'sat' and want_model:
                model = s.model()
            s.pop()
        except z3.Z3Exception as ex:
            res = 'unknown'
        if res == 'unknown':
            for name in ('nlsat', 'smt', 'default'):
                if time.time() - t0 > ms / 1000.0 * 3:
                    break
                try:
                    if name == 'nlsat':
                        s = z3.Tactic('qfnra-nlsat').solver()
                    elif name == 'default':
                        s = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
                    else:
                        s = z3.Solver()
                    s.set('timeout', int(ms))
                    s.add(*self.cons)
                    s.add(*extra)
                    r = str(scheck(s, ms))
                except z3.Z3Exception:
                    r = 'unknown'
                if r != 'unknown':
                    res = r
                    self.stats.by[name] = self.stats.by.get(name, 0) + 1
                    if res == 'sat' and want_model:
                        model = s.model()
                    self.nonlinear = True
                    break
        if res == 'unknown':
            self.stats.unknown += 1
        self.stats.solver_s += time.time() - t0
        return res, model

    def branch(self, sb):
        self.check_abort()
        key = nkey = None
        fp = 0
        if sb.rel is not None:
            ns = ~sb
            key, nkey = (pkey(sb.q), sb.rel), (pkey(ns.q), ns.rel)
            hit = self.conscache.get(key)
            if hit is not None:
                return hit
            fp = hash(key)
            nc = ns.z
        else:
            ns = ~sb
            nc = z3.Not(sb.z)
        c = sb.z
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] not in (True, False) or d[2] != fp:
                self.abort('internal', 'replayed decision %d does not match' % i)
            self.decisions.append(d)
            if d[1]:
                self.assert_sb(sb if d[0] else ns)
            return self._note(key, nkey, d[0])
        if i > self.max_forks:
            self.abort('bound', 'more than %d decisions on one path' % self.max_forks)
        t = f = False
        for w in self.wit:
            r = self.wtruth(sb, w)
            if r is True:
                t = True
            elif r is False:
                f = True
            if t and f:
                break
        if not (t and f) and self.model is not None:       # which side does the current model take?
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v):
                t = True
            elif z3.is_false(v):
                f = True
        unk = False
        if not t:
            r, m = self.check([c])
            if r == 'sat':
                t = True
                self.wmodel(m)
                mt = m
            elif r == 'unsat':
                self.decisions.append((False, False, fp))
                return self._note(key, nkey, False)
            else:
                t = unk = True
        if not f:
            r, m = self.check([nc])
            if r == 'sat':
                self.wmodel(m)
                f = True
            elif r == 'unsat':
                self.decisions.append((True, False, fp))
                return self._note(key, nkey, True)
            else:
                f = unk = True
        if unk:
            self.unknown_branch += 1
        side = True
        self.pending.append(self.decisions + [(not side, True, fp)])
        self.decisions.append((side, True, fp))
        self.assert_sb(sb if side else ns)
        return self._note(key, nkey, side)

    def _note(self, key, nkey, v):
        if key is not None:
            self.conscache[key] = v
            self.conscache[nkey] = not v
        return v

    def choose(self, n):
        """Nondeterministic choice among range(n)."""
        self.check_abort()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.pending.append(self.decisions + [('c', k)])
        self.decisions.append(('c', 0))
        return 0

    def concretize(self, s):
        """Case split on the integer value of s."""
        for _ in range(200):
            i = len(self.decisions)
            if i < len(self.prefix):
                k = self.prefix[i][1]
                self.decisions.append(self.prefix[i])
            else:
                if self.model is None:
                    r, m = self.check()
                    if r != 'sat':
                        self.abort('infeasible' if r == 'unsat' else 'unknown', 'concretize')
                    self.model = m
                v = self.eval_sym(s, self.model)
                k = int(math.floor(v + Fr(1, 10 ** 9)))
                self.decisions.append(('v', k))
            b = s == k
            if b is True or (b is not False and bool(b)):
                return Fr(k)
        self.abort('bound', 'concretize: too many values')

    def assume(self, b):
        self.check_abort()
        if b is True:
            return
        if b is False:
            self.abort('infeasible', 'assume')
        if not isinstance(b, SymBool):
            if not b:
                self.abort('infeasible', 'assume')
            return
        if b.rel is not None and self.conscache.get((pkey(b.q), b.rel)):
            return
        self.assert_sb(b)
        if b.rel is not None:
            n = ~b
            self._note((pkey(b.q), b.rel), (pkey(n.q), n.rel), True)

    # -- facts
    def fact(self, p):
        """p == 0 holds (a stub's contract); kept out of the solver until a query needs it."""
        b = compare(p, 'eq')
        if b is True:
            return
        if b is False:
            self.abort('infeasible', 'contract')
        n = ~b
        self._note((pkey(b.q), b.rel), (pkey(n.q), n.rel), True)
        if all(not m or (len(m) == 1 and m[0][1] == 1) for m in b.q):
            self.assert_sb(b)                   # linear: cheap enough to decide branches with
        else:
            self.lazy.append(b)

    def known_nonzero(self, p):
        k = pkey(p)
        if k in self.nonzero:
            return True
        c, m, q = split_content(p)
        for i, e in m:
            a = self.atoms[i]
            if a.pos is not True and self.signs.get(i) is None:
                return False
        if const_of(q) is not None:
            return True
        kq = pkey(q)
        a = self.cache.get(('den', kq))
        return a is not None

    def atom_sign(self, a):
        """+1/-1 when the path fixes the sign of atom a, else None."""
        if a.pos is True:
            return 1
        s = self.signs.get(a.id)
        if s is not None:
            return s
        if a.kind == 'root':
            # non-zero roots only appear with negative exponent after a nonzero test
            return 1
        if a.kind == 'den':
            q, sg = clear(a.poly)
            if syntactic_pos(q):
                self.signs[a.id] = sg
                return sg
            e = zpoly(q)
        else:
            e, sg = self.zvar(a), 1
        r, _ = self.check([e <= 0], want_model=False, ms=500)
        if r == 'unsat':
            self.signs[a.id] = sg
            return sg
        r, _ = self.check([e >= 0], want_model=False, ms=500)
        if r == 'unsat':
            self.signs[a.id] = -sg
            return -sg
        return None

    # -- evaluation under a model
    def atom_value(self, a, m, memo):
        if a.id in memo:
            return memo[a.id]
        if a.kind == 'den':
            v = self.eval_poly(a.poly, m, memo)
        elif a.kind == 'root' and a.z is None:
            v = Fr(float(self.eval_poly(a.poly, m, memo)) ** (1.0 / a.n))
        elif a.kind == 'pi':
            v = Fr(PI)
        elif a.kind == 'floor':
            x = self.eval_poly(a.poly, m, memo)
            v = Fr(x.numerator // x.denominator)
        elif a.kind.startswith('uf:') and a.z is None:
            x = float(self.eval_poly(a.poly, m, memo))
            v = Fr(math.log(x)) if x > 0 else Fr(0)
        elif a.z is None:
            v = Fr(0)
        else:
            v = zval(m.eval(a.z, model_completion=True))
        memo[a.id] = v
        return v

    def support(self, p, out):
        """Collect the ids of the atoms p depends on, through roots, reciprocals, floors and functions."""
        for mo in p:
            for i, e in mo:
                if i not in out:
                    out.add(i)
                    if self.atoms[i].poly is not None:
                        self.support(self.atoms[i].poly, out)

    def eval_poly(self, p, m, memo):
        t = Fr(0)
        for mo, c in p.items():
            v = c
            for i, e in mo:
                x = self.atom_value(self.atoms[i], m, memo)
                if e < 0 and x == 0:
                    return Fr(0)
                v = v * x ** e
            t += v
        return t

    def eval_sym(self, s, m, memo=None):
        if memo is None:
            memo = {}
        return self.eval_poly(s.p, m, memo)

    # -- formatting
    def token(self, s, spec):
        k = (pkey(s.p), spec)
        t = self.cache.get(('tok', k))
        if t is None:
            t = '\u27e6%d\u27e7' % len(self.tokens)
            w = ''
            for ch in spec.lstrip('+-# ,<>^='):
                if ch.isdigit():
                    w += ch
                else:
                    break
            w = int(w) if w else 0
            self.tokens[t] = (s, spec)
            t = t.rjust(w)
            self.cache[('tok', k)] = t
        return t


def zval(v):
    if z3.is_int_value(v):
        return Fr(v.as_long())
    if z3.is_rational_value(v):
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        r = v.approx(30)
        return Fr(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_true(v):
        return Fr(1)
    return Fr(0)


# ----------------------------------------------------------------------------- calculus on Syms (for specifications)
def diff(s, x):
    """Derivative of Sym s with respect to input Sym x."""
    (m,), = x.p.keys(),
    xid = m[0][0]
    memo = {}

    def datom(a):
        if a.id in memo:
            return memo[a.id]
        if a.id == xid:
            r = pconst(1)
        elif a.kind in ('in', 'pi', 'floor', 'int'):
            r = {}
        elif a.kind == 'den':
            r = dpoly(a.poly)
        elif a.kind == 'root':
            r = pscale(pmul(dpoly(a.poly), pinv(ppow({((a.id, 1),): Fr(1)}, a.n - 1))), Fr(1, a.n))
        elif a.kind == 'uf:log':
            r = pmul(dpoly(a.poly), pinv(a.poly))
        else:
            E.unsupported('derivative of ' + a.kind)
        memo[a.id] = r
        return r

    def dpoly(p):
        out = {}
        for m, c in p.items():
            for i, e in m:
                d = datom(E.atoms[i])
                if d:
                    rest = mmul(m, ((i, -1),))
                    out = padd(out, pmul(normalize({rest: c * e}), d))
        return out
    return Sym(dpoly(s.p))
