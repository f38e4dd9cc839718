"""Backtraces and capture zones (C01-C04)."""
import math
from fractions import Fraction as Fr

from vlib.harness_api import harness

CZ = 'oneka.capturezone'
A = [[1 / 5], [3 / 40, 9 / 40], [44 / 45, -56 / 15, 32 / 9], [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
     [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656]]
B = [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84]
ERR = [71 / 57600, 0, -71 / 16695, 71 / 1920, -17253 / 339200, 22 / 525, -1 / 40]       # b5 - b4, the seventh at the new point


def key(c, xy):
    if c.symbolic:
        return tuple(c.canon(v) for v in xy)
    return tuple(float(v) for v in xy)


BQ = [Fr(35, 384), 0, Fr(500, 1113), Fr(125, 192), Fr(-2187, 6784), Fr(11, 84)]
EQ = [Fr(71, 57600), 0, Fr(-71, 16695), Fr(71, 1920), Fr(-17253, 339200), Fr(22, 525), Fr(-1, 40)]
DET = BQ[4] * EQ[5] - BQ[5] * EQ[4]
UNIT = {'345': (Fr(3, 5), Fr(4, 5)), '-51213': (Fr(-5, 13), Fr(12, 13)), '817': (Fr(8, 17), Fr(-15, 17)), 'x': (1, Fr(-1, 2)), '-x': (-1, Fr(1, 4)),
        'y': (Fr(1, 8), 1), '-y': (Fr(1, 3), -1), None: None}


def scaled(c, q, v):
    return (q if c.symbolic else float(q)) * v


class Field:
    """A velocity field known only through its values: every new place has a new velocity. The seven velocities of a Dormand-Prince attempt
    are arbitrary: instead of the fifth and sixth, the mean velocity D = sum b k and the error rate E = sum e k of the attempt are the
    inputs, and the fifth and sixth follow linearly (a change of variables which covers the same fields)."""

    def __init__(self, c, limit, fail_at=None, fail=None, persist=False, limit_is_cut=True, unit=None, eunit=None):
        self.c, self.limit, self.evals, self.known = c, limit, [], {}
        self.fail_at, self.fail, self.persist, self.cut, self.unit, self.eunit = fail_at, fail, persist, limit_is_cut, unit, eunit
        self.n = 0
        self.places = []

    def pair(self, n, pos=False):
        c = self.c
        return (c.real(n + 'x', 0.125, 64, soft=(0.5, 4)) if pos else c.real(n + 'x', -64, 64, soft=(-4, 4)), c.real(n + 'y', -64, 64, soft=(-4, 4)))

    def base(self, xy):
        """The velocity the attempt starts with: its first stage lies ahead of the last accepted vertex or of the last candidate."""
        def off(at):
            (px, py), (kx, ky) = at
            return (xy[0] - px) * ky - (xy[1] - py) * kx
        if len(self.places) > 1:
            last = self.places[-1]
            d = off(last)
            new = not self.c.canon(d) if self.c.symbolic else abs(d) < abs(off(self.start))
            if new:
                self.start = last
        return self.start[1]

    def new(self, m, xy):
        c = self.c
        a, j = divmod(m - 1, 6) if m else (-1, 5)      # attempt, stage 0..5 = k2..k7
        if j == 0:
            base = self.base(xy)
            k = [base] + [self.pair('k%d_%d' % (a, i), i == 7) for i in (2, 3, 4, 7)]
            if self.unit is None:
                D = self.pair('D%d' % a)
            else:
                r = c.real('r%d' % a, gt=0.0625, hi=64, soft=(0.5, 4))
                D = (scaled(c, self.unit[0], r), scaled(c, self.unit[1], r))
            if self.eunit is None:
                E = self.pair('E%d' % a)
            else:
                r = c.real('e%d' % a, gt=0.001, hi=64, soft=(0.01, 2))
                E = (scaled(c, self.eunit[0], r), scaled(c, self.eunit[1], r))
            P = [D[i] - sum(scaled(c, BQ[q], k[q][i]) for q in (0, 2, 3)) for i in (0, 1)]
            Q = [E[i] - sum(scaled(c, EQ[q], k[p][i]) for q, p in ((0, 0), (2, 2), (3, 3), (6, 4))) for i in (0, 1)]
            k5 = tuple(scaled(c, EQ[5] / DET, p) - scaled(c, BQ[5] / DET, q) for p, q in zip(P, Q))
            k6 = tuple(scaled(c, BQ[4] / DET, q) - scaled(c, EQ[4] / DET, p) for p, q in zip(P, Q))
            self.group = [k[1], k[2], k[3], k5, k6, k[4]]
        v = self.pair('k', True) if m == 0 else self.group[j]
        self.places.append((xy, v))
        if m == 0:
            self.start = (xy, v)
        return v

    def __call__(self, xy):
        c = self.c
        i = self.n
        self.n += 1
        if i >= self.limit:
            if self.cut:
                c.cut('%d velocity evaluations' % self.limit)
            raise RuntimeError('too many evaluations')
        if self.fail_at is not None and (i == self.fail_at or (self.persist and i > self.fail_at)):
            v = self.fail()
            self.evals.append((xy, v))
            return v
        if any(isinstance(v, float) and not math.isfinite(v) for v in (xy[0], xy[1])):
            v = c.numpy.array([1.0, 1.0])
            self.evals.append((xy, v))
            return v
        k = key(c, xy)
        if k not in self.known:
            self.known[k] = self.new(len(self.known), xy)
        v = c.numpy.array(list(self.known[k]))
        self.evals.append((xy, v))
        return v


def same_point(c, p, q):
    return key(c, p) == key(c, q) if c.symbolic else all(abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(a))) for a, b in zip(p, q))


def analyse(c, verts, f, start):
    """Split the evaluations into attempts of the Dormand-Prince scheme: [(dt, cur, ks, args, candidate, accepted)]"""
    ev = f.evals
    c.check('starts at the given point', c.and_(c.true(len(verts) >= 1), c.eqs(verts[0], start)))
    c.check('first velocity is taken at the start', c.and_(c.true(len(ev) > 0), c.eqs(ev[0][0], start)))
    cur, k1, nv, i, out = start, ev[0][1], 1, 1, []
    while True:
        while i < len(ev) and same_point(c, ev[i][0], cur):        # a fresh evaluation at the current vertex is no stage
            i += 1
        if i + 6 > len(ev):
            break
        grp = ev[i:i + 6]
        i += 6
        dt = (grp[0][0][0] - cur[0]) * 5 / k1[0]
        ks = [k1] + [g[1] for g in grp]
        cand = grp[5][0]
        acc = nv < len(verts) and same_point(c, verts[nv], cand)
        out.append((dt, cur, ks, [g[0] for g in grp], cand, acc))
        if acc:
            nv += 1
            cur, k1 = cand, ks[6]
    c.check('every vertex is the end of a step', c.true(nv == len(verts)), '%d of %d' % (nv, len(verts)))
    return out, i == len(ev)


def combo(w, ks):
    return [sum((a * k[j] for a, k in zip(w, ks) if a), 0) for j in (0, 1)]


def trace(c, tries, tol=None, maxstep=None, dur=None):
    start = (c.real('xs'), c.real('ys'))
    sign = c.params['sign']
    T = dur if dur is not None else c.real('T', gt=0.001, hi=40, soft=(0.05, 2)) * sign
    tol = c.real('tol', gt=1e-9, hi=100, soft=(0.01, 1)) if tol is None else tol
    maxstep = c.real('maxstep', gt=0.01, hi=1000, soft=(0.05, 4)) if maxstep is None else maxstep
    f = Field(c, 1 + 6 * tries, unit=UNIT[c.params.get('D')], eunit=UNIT[c.params.get('E')])
    v = c.must('backtrace', c.mod(CZ).compute_backtrace, start[0], start[1], T, tol, maxstep, f)
    return start, T, tol, maxstep, f, v


INF = float('inf')
REGIMES = {'both': {}, 'step': {'tol': INF}, 'error': {'maxstep': INF}, 'none': {'tol': INF, 'maxstep': INF}}


def runs(*rows):
    return [dict(zip(('sign', 'regime', 'tries', 'D', 'E'), r)) for r in rows]


QUICK = runs((1, 'none', 1, None, None), (-1, 'none', 2, None, None), (1, 'none', 4, None, 'x'), (-1, 'none', 4, None, '-y'),
             (1, 'step', 1, None, None), (-1, 'step', 1, None, None), (1, 'error', 1, None, None), (-1, 'error', 1, None, None),
             (1, 'step', 3, '345', 'x'), (-1, 'step', 3, '-51213', 'y'), (1, 'step', 2, '817', '-x'), (1, 'error', 2, None, 'x'), (-1, 'error', 2, None, '-y'),
             (1, 'error', 2, None, 'y'), (1, 'error', 2, None, '-x'), (1, 'both', 2, '345', 'x'), (-1, 'both', 2, '817', 'y'))
THOROUGH = QUICK + runs((1, 'none', 6, None, 'y'), (-1, 'none', 6, None, 'x'), (-1, 'none', 3, None, None), (1, 'step', 2, '345', None), (-1, 'step', 2, None, '-y'), (1, 'error', 2, None, None),
                        (1, 'step', 4, '345', '-x'), (-1, 'step', 4, '817', 'y'), (1, 'error', 3, None, 'x'), (-1, 'error', 3, None, '-y'), (1, 'both', 3, '-51213', '-x'),
                        (-1, 'both', 3, '345', '-y'))


# ------------------------------------------------------------------------------------------------------------------ C02
@harness('C02', quick=QUICK, thorough=THOROUGH, paths=20000, strict=False)
def time_and_space(c):
    """compute_backtrace in an arbitrary velocity field (fresh symbolic velocity at every new place, first component positive), start,
    duration of either sign, tolerance and maximum step symbolic; up to 2-3 attempted steps (5 thorough), longer traces are cut. Vertices
    begin at the start, neighbours are closer than the maximum step, elapsed time moves monotonically in the direction of the duration,
    never passes it and ends at it; each step moves with the velocity times its signed time. The step in time is recovered from the first
    stage of the Dormand-Prince scheme."""
    start, T, tol, maxstep, f, v = trace(c, c.params['tries'], **REGIMES[c.params['regime']])
    steps, whole = analyse(c, v, f, start)
    t = 0
    s = c.params['sign']
    for dt, cur, ks, args, cand, acc in steps:
        c.check('time step in the direction of the duration', c.lt(0, dt * s))
        if not acc:
            continue
        dx, dy = cand[0] - cur[0], cand[1] - cur[1]
        c.check('closer than the maximum step', c.lt(c.sqrt(dx * dx + dy * dy), maxstep + (0 if c.symbolic else 1e-9 * (1 + abs(maxstep)))))
        t = t + dt
        c.check('duration not passed', c.le(t * s, T * s))
        b = combo(B, ks)
        c.check('moves with the velocity', c.eqs(cand, [cur[0] + dt * b[0], cur[1] + dt * b[1]]))
    c.check('ends at the duration', c.eq(t, T))
    c.check('no evaluation outside a step', c.true(whole))
    c.check('no warning', c.true(not [l for l in c.logs if l[0] in ('WARNING', 'ERROR')]))


@harness('C02', quick=[{'sign': 1, 'D': '345'}, {'sign': -1, 'D': '-51213'}], thorough=[{'sign': s, 'tries': 6, 'D': d} for s in (1, -1) for d in ('345', '817', '-51213')],
         strict=False)
def uniform(c):
    """uniform flow of symbolic speed in a fixed rational direction, no error control: the trace ends at start + velocity * duration, all
    vertices lie on that line in order, and neighbours are closer than the maximum step (symbolic); up to 3 attempted steps (6 thorough)."""
    r = c.real('speed', gt=0.125, hi=16)
    u = UNIT[c.params['D']]
    vx, vy = scaled(c, u[0], r), scaled(c, u[1], r)
    xs, ys = c.real('xs'), c.real('ys')
    s = c.params['sign']
    T = c.real('T', gt=0.001, hi=40, soft=(0.05, 2)) * s
    m = c.real('maxstep', gt=0.01, hi=1000, soft=(0.05, 4))
    n = [0]

    def feval(xy):
        n[0] += 1
        if n[0] > 1 + 6 * c.params.get('tries', 3):
            c.cut('attempted steps')
        return c.numpy.array([vx, vy])
    v = c.must('backtrace', c.mod(CZ).compute_backtrace, xs, ys, T, INF, m, feval)
    c.check('starts at the given point', c.eqs(v[0], (xs, ys)))
    c.check('ends after the duration', c.eqs(v[-1], (xs + vx * T, ys + vy * T)))
    tiny = 0 if c.symbolic else 1e-9 * (1 + m)
    for p, q in zip(v[:-1], v[1:]):
        dx, dy = q[0] - p[0], q[1] - p[1]
        d = dx * s * scaled(c, 1 / u[0], 1)
        c.check('forward along the flow', c.and_(c.lt(0, d), c.eq(dx * vy, dy * vx)))
        c.check('closer than the maximum step', c.lt(d, m + tiny))


@harness('C02', quick=[{'sign': 1, 'steps': 400}, {'sign': -1, 'steps': 1300}], thorough=[{'sign': s, 'steps': n} for s in (1, -1) for n in (100, 1300, 4000)], strict=False, forks=100000)
def long(c):
    """a trace of 400 and of 1300 steps (4000 thorough) in uniform flow of given start, speed and step bound, the last part of the duration
    symbolic: the vertices lie on the line, closer than the maximum step, and the trace ends at start + velocity * duration."""
    s, n = c.params['sign'], c.params['steps']
    xs, ys = 1024.5, -77.25
    T = (n * 0.36 + c.real('rest', 0, 0.125, soft=(0, 0.125))) * s
    v = c.must('backtrace', c.mod(CZ).compute_backtrace, xs, ys, T, INF, 1.0, lambda xy: c.numpy.array([1.5, -2.0]))
    tiny = 1e-6
    c.check('starts at the given point', c.eqs(v[0], (xs, ys)))
    c.check('ends after the duration', c.all([c.lt(-tiny, v[-1][0] - (xs + T * 1.5)), c.lt(v[-1][0] - (xs + T * 1.5), tiny), c.lt(-tiny, v[-1][1] - (ys - T * 2)), c.lt(v[-1][1] - (ys - T * 2), tiny)]))
    gap = [((q[0] - p[0]) * s, (q[1] - p[1]) * s) for p, q in zip(v[:-1], v[1:])]
    c.check('closer than the maximum step', c.all([c.lt(dx * dx + dy * dy, 1 + tiny) for dx, dy in gap]))
    c.check('forward along the flow', c.all([c.and_(c.lt(0, dx), c.lt(dy, 0)) for dx, dy in gap]))


@harness('C02', quick=[{'sign': s, 'rejects': n} for s, n in ((1, 3), (-1, 20), (1, 60))], thorough=[{'sign': s, 'rejects': n} for s in (1, -1) for n in (1, 20, 200, 400)], strict=False, forks=100000)
def stubborn(c):
    """3, 20 and 60 attempted steps in a row (400 thorough) rejected because the velocity met grows faster than the step shrinks, then
    uniform flow; the last part of the duration symbolic: the trace goes on and ends at start + velocity * duration."""
    s, n = c.params['sign'], c.params['rejects']
    T = (3.0 + c.real('rest', 0, 0.125, soft=(0, 0.125))) * s
    calls = [0]

    def feval(xy):
        calls[0] += 1
        k = (calls[0] - 2) // 6
        return c.numpy.array([3.0 * 2.0 ** k if 0 <= k < n else 1.0, 0.0])
    v = c.must('backtrace', c.mod(CZ).compute_backtrace, 2.5, -1.0, T, INF, 0.25, feval)
    tiny = 1e-6
    c.check('ends after the duration', c.all([c.lt(-tiny, v[-1][0] - (2.5 + T)), c.lt(v[-1][0] - (2.5 + T), tiny), c.eq(v[-1][1], -1.0)]))
    c.check('closer than the maximum step', c.all([c.and_(c.lt(-tiny, (q[0] - p[0]) * s), c.lt((q[0] - p[0]) * s, 0.25 + tiny)) for p, q in zip(v[:-1], v[1:])]))


@harness('C02', quick=[{'sign': s, 'reach': r} for s, r in ((1, 1.0e6), (-1, 2.0e4), (1, 2.0 ** -12), (-1, 2.0 ** -30))], thorough=[{'sign': s, 'reach': r} for s in (1, -1) for r in (1.0e3, 1.0e5, 1.0e7, 1.0e10, 0.01, 2.0 ** -12, 2.0 ** -20, 2.0 ** -30)], strict=False)
def ages(c):
    """slow uniform flow for a symbolic duration of 20 thousand to 3 million days (10 thousand million thorough), and fast flow for one below a
    thousandth and below a hundred millionth of a day, the largest step never binding: the vertices lie on the line in order and the trace ends at start + velocity * duration."""
    s, r = c.params['sign'], c.params['reach']
    T = c.real('T', gt=r, hi=3 * r, soft=(r, 3 * r)) * s
    w = 1.0 if r > 0.5 else 1 / r                # brief ones are fast enough to be seen
    v = c.must('backtrace', c.mod(CZ).compute_backtrace, 10.0, 20.0, T, INF, r * w, lambda xy: c.numpy.array([0.0009765625 * w, -0.001953125 * w]))
    tiny = r * w * 1e-9
    for k, (a, z) in enumerate(((10.0, 0.0009765625 * w), (20.0, -0.001953125 * w))):
        c.check('ends after the duration', c.and_(c.lt(-tiny, v[-1][k] - (a + T * z)), c.lt(v[-1][k] - (a + T * z), tiny)))
    c.check('forward along the flow', c.all([c.and_(c.lt(0, (q[0] - p[0]) * s), c.lt((q[1] - p[1]) * s, 0)) for p, q in zip(v[:-1], v[1:])]))


# ------------------------------------------------------------------------------------------------------------------ C03
@harness('C03', quick=[q for q in QUICK if q['regime'] != 'none'], thorough=THOROUGH, paths=20000, strict=False)
def scheme(c):
    """the attempted steps of the same arbitrary-field traces are Dormand-Prince 5(4) steps from the current vertex and its velocity, also
    after rejected attempts and after accepted steps; a step is accepted only if both components of the embedded error estimate
    dt * sum(b5 - b4) k are below the tolerance; up to 2-3 attempts (5 thorough)."""
    start, T, tol, maxstep, f, v = trace(c, c.params['tries'], **REGIMES[c.params['regime']])
    steps, whole = analyse(c, v, f, start)
    for n, (dt, cur, ks, args, cand, acc) in enumerate(steps):
        for i, row in enumerate(A):
            d = combo(row, ks)
            c.check('stage %d' % (i + 2), c.eqs(args[i], [cur[0] + dt * d[0], cur[1] + dt * d[1]]))
        b = combo(B, ks)
        c.check('fifth-order combination', c.eqs(cand, [cur[0] + dt * b[0], cur[1] + dt * b[1]]))
        if acc:
            e = combo(ERR, ks)
            tiny = 0 if c.symbolic else 1e-9 * (1 + tol)
            for j in (0, 1):
                c.check('accepted below the tolerance', c.and_(c.lt(dt * e[j], tol + tiny), c.lt(-tol - tiny, dt * e[j])))


def lie(c, px, py, order):
    """Taylor coefficients of the flow of a polynomial field given by coefficient dictionaries {(i, j): value}, at the origin"""
    def dpart(p, k):
        return {((i - 1, j) if k == 0 else (i, j - 1)): v * (i if k == 0 else j) for (i, j), v in p.items() if (i if k == 0 else j)}

    def mul(p, q):
        r = {}
        for (a, b), u in p.items():
            for (d, e), w in q.items():
                r[(a + d, b + e)] = r.get((a + d, b + e), 0) + u * w
        return r

    def add(p, q):
        r = dict(p)
        for k, w in q.items():
            r[k] = r.get(k, 0) + w
        return r
    out = []
    for g in (px, py):
        series, cur, fact = [], g, 1
        for n in range(1, order + 1):
            fact *= n
            series.append(cur.get((0, 0), 0) / fact)
            cur = {k: w for k, w in add(mul(dpart(cur, 0), px), mul(dpart(cur, 1), py)).items() if k[0] + k[1] <= order - n}
        out.append(series)
    return out


def poly_field(c, kind):
    """coefficients {(i, j): value} of both components around the starting point"""
    def comp(t, idx):
        return {ij: c.real('%s%d%d' % (t, ij[0], ij[1]), -2, 2, soft=(-2, 2)) for ij in idx}
    sets = {
        'quadrature': ([(0, 0)], [(i, 0) for i in range(5)]),
        'linear': ([(0, 0), (1, 0), (0, 1)], [(0, 0), (1, 0), (0, 1)]),
        'time_dependent': ([(0, 0)], [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (2, 1)]),
        'scalar': ([(0, 0)], [(0, i) for i in range(5)]),
        'quadratic': ([(0, 0), (0, 1), (2, 0)], [(0, 0), (1, 1), (0, 2), (1, 0)]),
        'cubic': ([(0, 0), (0, 2)], [(0, 0), (3, 0), (1, 2), (0, 1)]),
        'full2': ([(0, 0), (1, 0), (0, 1), (1, 1)], [(0, 0), (1, 0), (0, 1), (1, 1)]),
        'full3': ([(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)], [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)]),
    }[kind]
    px, py = comp('a', sets[0]), comp('b', sets[1])
    return px, py


@harness('C03', quick=[{'kind': k, 'sign': s} for k in ('quadrature', 'linear', 'time_dependent', 'scalar', 'quadratic', 'cubic') for s in (1, -1)],
         thorough=[{'kind': k, 'sign': s} for k in ('quadrature', 'linear', 'time_dependent', 'scalar', 'quadratic', 'cubic', 'full2', 'full3') for s in (1, -1)])
def fifth_order(c):
    """one accepted step of symbolic size h (|h| < 0.1, the whole duration) in polynomial fields with symbolic coefficients, computed as
    power series in h truncated after h^5: the new vertex agrees with the Taylor series of the exact flow through h^5 in both components.
    Tolerance and maximum step
    infinite; sizes (norms) of power series are opaque numbers in [0, 1]. Real runs are compared with a reference Dormand-Prince step."""
    px, py = poly_field(c, c.params['kind'])
    h = c.real('h', gt=0.001, lt=0.1, soft=(0.01, 0.1)) * c.params['sign']
    c.truncate('h', 5)
    inf = float('inf')

    def velocity(xy):
        r = []
        for p in (px, py):
            t = 0
            for (i, j), w in p.items():
                m = w
                for _ in range(i):
                    m = m * xy[0]
                for _ in range(j):
                    m = m * xy[1]
                t = t + m
            r.append(t)
        return r
    n = [0]

    def feval(xy):
        n[0] += 1
        if n[0] > 7:
            c.cut('a second attempt')
        return c.numpy.array(velocity(xy))
    x0 = 0.0
    v = c.must('backtrace', c.mod(CZ).compute_backtrace, x0, x0, h, inf, inf, feval)
    c.check('one step', c.true(len(v) == 2), len(v))
    if c.symbolic:
        ref = [sum(s[k - 1] * h ** k for k in range(1, 6)) for s in lie(c, px, py, 5)]
    else:
        ks = [velocity((0.0, 0.0))]
        for row in A:
            d = combo(row, ks)
            ks.append(velocity((h * d[0], h * d[1])))
        b = combo(B, ks)
        ref = [h * b[0], h * b[1]]
    c.check('agrees with the exact flow through fifth order', c.eqs(v[1], ref, tol=0 if c.symbolic else 1e-12))


# ------------------------------------------------------------------------------------------------------------------ C04
def failures(c):
    nan, inf = float('nan'), float('inf')

    def exc(e):
        def f():
            raise e
        return f

    def val(x, y):
        return lambda: c.numpy.array([x, y])
    return {'dry': exc(c.mod('oneka.model').AquiferError('dry')), 'zerodiv': exc(ZeroDivisionError('x')), 'key': exc(KeyError('x')), 'value': exc(ValueError('x')),
            'nan': val(nan, nan), 'nan_x': val(nan, 1.0), 'nan_y': val(1.0, nan), 'inf': val(inf, 1.0), 'ninf': val(1.0, -inf)}


KINDS = ['dry', 'zerodiv', 'key', 'value', 'nan', 'nan_x', 'nan_y', 'inf', 'ninf']


@harness('C04', quick=[{'kind': k, 'persist': p, 'sign': 1} for k in KINDS for p in (0, 1)] + [{'kind': 'nan', 'persist': 0, 'sign': -1}],
         thorough=[{'kind': k, 'persist': p, 'sign': s} for k in KINDS for p in (0, 1) for s in (1, -1)], hang=True)
def failing_field(c):
    """the velocity of an otherwise arbitrary symbolic field fails (exceptions of four kinds, NaN or infinite in one or both components;
    once or from then on) at any one of the first 13 evaluations (symbolic choice), i.e. in the first velocity, in any stage of an
    accepted first step, or of a second one: the trace returns exactly the vertices accepted before, all finite, raises nothing, and asks
    for at most 24 further velocities. Tolerance and maximum step so large that steps are accepted."""
    at = c.choice('at', 13)
    s = c.params['sign']
    xs, ys = c.real('xs'), c.real('ys')
    T = c.real('T', 0.25, 0.9) * s
    f = Field(c, at + 25, at, failures(c)[c.params['kind']], bool(c.params['persist']), limit_is_cut=False)
    v, e = c.call(c.mod(CZ).compute_backtrace, xs, ys, T, 1e30, 1e30, f)
    c.check('raises nothing', c.true(e is None), repr(e))
    if e is not None:
        return
    c.check('stops evaluating', c.true(f.n < f.limit), f.n)
    n = 1 if at <= 6 else 2
    c.check('vertices accepted before the failure', c.true(len(v) == n), '%d, expected %d' % (len(v), n))
    c.check('starts at the given point', c.eqs(v[0], (xs, ys)))
    c.check('all finite', c.true(all(not (isinstance(x, float) and not math.isfinite(x)) for p in v for x in p)))
    if len(v) == 2:
        ks = [g[1] for g in f.evals[:6]]
        b = combo(B, ks)
        c.check('the accepted vertex is the completed step', c.eqs(v[1], [xs + 0.1 * s * b[0], ys + 0.1 * s * b[1]]))


@harness('C04', quick=[{'kind': k} for k in ('dry', 'nan', 'inf', 'nan_y')], thorough=[{'kind': k} for k in KINDS], hang=True)
def failing_after_rejection(c):
    """the same when the first attempt was rejected for its length (symbolic maximum step): failure at any evaluation of the second
    attempt."""
    at = 7 + c.choice('at', 6)
    xs, ys = c.real('xs'), c.real('ys')
    m = c.real('maxstep', 0.02, 0.2, soft=(0.02, 0.2))
    f = Field(c, at + 25, at, failures(c)[c.params['kind']], False, limit_is_cut=False)
    v, e = c.call(c.mod(CZ).compute_backtrace, xs, ys, 5.0, 1e30, m, f)
    c.check('raises nothing', c.true(e is None), repr(e))
    if e is not None:
        return
    c.check('stops evaluating', c.true(f.n < f.limit), f.n)
    b = combo(B, [g[1] for g in f.evals[:6]])
    dx, dy = 0.1 * b[0], 0.1 * b[1]
    if not c.symbolic:
        c.assume(abs(dx * dx + dy * dy - m * m) > 1e-9)
    if dx * dx + dy * dy < m * m:
        c.check('first step kept', c.true(len(v) == 2))
    else:
        c.check('first attempt rejected', c.true(len(v) == 1))
    c.check('all finite', c.true(all(not (isinstance(x, float) and not math.isfinite(x)) for p in v for x in p)))


# ------------------------------------------------------------------------------------------------------------------ C01
def recorder(c):
    """A stand-in probability field which records what reaches it."""
    class Recorder:
        def __init__(self):
            self.events = []

        def rasterize(self, xv, yv, umbra):
            self.events.append(('rasterize', list(xv), list(yv), umbra))

        def register(self, weight=1.0):
            self.events.append(('register', weight))
    return Recorder()


def number(v):
    """the value of a symbolic constant"""
    if hasattr(v, 'concrete'):
        v = v.concrete()
    return None if v is None else float(v)


FIELDS = {
    'dead': 'fails at once everywhere', 'uniform': 'uniform flow', 'none': 'no flow', 'east': 'fails on the eastern half at once', 'late': 'fails at the ninth velocity of each trace'}


def zone_field(c, kind, xt):
    n = [0]

    def feval(xy):
        n[0] += 1
        if kind == 'dead' or (kind == 'east' and xy[0] >= xt):
            raise c.mod('oneka.model').AquiferError('dry')
        if kind == 'late' and n[0] % 9 == 0:
            raise c.mod('oneka.model').AquiferError('dry')
        return c.numpy.array([0.0, 0.0] if kind == 'none' else [1.5, -2.0])
    feval.count = n
    return feval


@harness('C01', quick=[{'n': n, 'kind': k, 'sign': 1 if n % 2 else -1} for n in (1, 2, 3, 4, 5, 7, 8, 12) for k in ('dead', 'uniform', 'east')] +
         [{'n': 3, 'kind': k, 'sign': s} for k in ('none', 'late') for s in (1, -1)] + [{'n': 150, 'kind': 'dead', 'sign': -1}, {'n': 1000, 'kind': 'dead', 'sign': 1}],
         thorough=[{'n': n, 'kind': k, 'sign': s} for n in list(range(1, 13)) + [16, 24, 36] for k in FIELDS for s in (1, -1)], paths=20000)
def ring(c):
    """target, radius, umbra and weight symbolic, 1 to 12, 150 and 1000 paths (to 36 thorough), five kinds of velocity field (failing at once, failing on
    one side, failing late, uniform, still), duration +-0.3, tolerance 1, maximum step 1.2 (several steps): what reaches a recording stand-in for the probability field.
    Oracle for each track: a direct call of compute_backtrace from its first vertex. Directions compared within 1e-9."""
    n = c.params['n']
    R = c.real('R', gt=1, hi=100, soft=(1.25, 6))           # radius + 1
    xt, yt = c.real('xt', -1000, 1000), c.real('yt', -1000, 1000)
    umbra, weight = c.real('umbra', gt=0), c.real('weight', gt=0)
    T = 0.3 * c.params['sign']
    f = recorder(c)
    feval = zone_field(c, c.params['kind'], xt)
    v = c.must('capture zone', c.mod(CZ).compute_capturezone, xt, yt, R - 1, n, T, f, umbra, weight, 1.0, 1.2, feval)
    ev = f.events
    c.check('registered exactly once, at the end', c.true([e[0] for e in ev] == ['rasterize'] * (len(ev) - 1) + ['register']), [e[0] for e in ev])
    c.check('registered with the weight', c.eq(ev[-1][1], weight))
    tracks = ev[:-1]
    m = len(tracks)
    c.check('at least the requested number of traces', c.true(m >= n), m)
    ang = []
    for _, x, y, u in tracks:
        c.check('umbra', c.eq(u, umbra))
        c.check('track has a start', c.true(len(x) == len(y) and len(x) >= 1))
        ux, uy = number((x[0] - xt) / R), number((y[0] - yt) / R)
        c.check('start lies on a ray from the target', c.true(ux is not None and uy is not None))
        tol = 1e-9 if c.symbolic else 1e-6
        c.check('one unit outside the well', c.true(abs(math.hypot(ux, uy) - 1) < tol), (ux, uy))
        ang.append(math.atan2(uy, ux) / (2 * math.pi) % 1.0)
    z = sorted((a - ang[0] + 1e-7) % 1.0 for a in ang)
    c.check('equally spaced', c.true(all(abs(a - 1e-7 - j / m) < (1e-9 if c.symbolic else 1e-6) for j, a in enumerate(z))), z)
    for _, x, y, u in tracks:
        if c.params['kind'] == 'late':
            feval.count[0] = 0
        w = c.must('reference trace', c.mod(CZ).compute_backtrace, x[0], y[0], T, 1.0, 1.2, feval)
        if c.params['kind'] == 'late':
            continue
        c.check('every vertex in order', c.true(len(w) == len(x)), (len(w), len(x)))
        c.check('complete track', c.and_(c.eqs(x, [p[0] for p in w]), c.eqs(y, [p[1] for p in w])))


@harness('C01', quick=[{'n': n, 'len': k, 'sign': s} for n in (1, 2, 3, 5) for k in (1, 3) for s in (1, -1)] + [{'n': 2, 'len': 1200, 'sign': -1}, {'n': 1000, 'len': 1, 'sign': -1}],
         thorough=[{'n': n, 'len': k, 'sign': s} for n in (1, 2, 3, 4, 5, 6, 8, 16) for k in (1, 2, 5, 300) for s in (1, -1)] + [{'n': 2, 'len': 12000, 'sign': -1}, {'n': 10000, 'len': 1, 'sign': 1}], need_validation=False)
def arbitrary_traces(c):
    """compute_backtrace replaced by a stub that returns arbitrary symbolic vertices (1, 3 or 1200 per trace, up to 12000 thorough, different
    lengths) after the start; all arguments symbolic, 1 to 5 and 1000 paths (10000 thorough). Every trace is asked for with the duration, tolerance, maximum step
    and velocity of the call; each is rasterized once as it was returned, in the order of its vertices. Ends without a verdict when the
    capture zone does not call compute_backtrace."""
    n = c.params['n']
    a = {k: c.real(k, gt=0) for k in ('rtarget', 'tol', 'maxstep', 'umbra', 'weight', 'T')}
    xt, yt = c.real('xt'), c.real('yt')
    T = a['T'] * c.params['sign']
    out = []

    def ret(d):
        k = c.params['len'] + len(out) % 2
        w = [(d['xs'], d['ys'])] + [c.numpy.array([c.nfresh('vx'), c.nfresh('vy')]) for _ in range(k - 1)]
        out.append(list(w))
        return w
    calls = c.record(CZ, 'compute_backtrace', ret)
    f = recorder(c)
    feval = zone_field(c, 'uniform', xt)
    c.must('capture zone', c.mod(CZ).compute_capturezone, xt, yt, a['rtarget'], n, T, f, a['umbra'], a['weight'], a['tol'], a['maxstep'], feval)
    if not calls:
        c.cut('no call of compute_backtrace')
    c.check('number of traces', c.true(len(calls) >= n), len(calls))
    for d in calls:
        c.check('settings of the trace', c.all([c.eq(d['duration'], T), c.eq(d['tol'], a['tol']), c.eq(d['maxstep'], a['maxstep'])]))
    ev = f.events
    c.check('registered exactly once, at the end', c.true([e[0] for e in ev] == ['rasterize'] * len(calls) + ['register']), [e[0] for e in ev])
    c.check('registered with the weight', c.eq(ev[-1][1], a['weight']))
    for (_, x, y, u), w in zip(ev, out):
        c.check('track as traced', c.all([c.eqs(x, [p[0] for p in w]), c.eqs(y, [p[1] for p in w]), c.eq(u, a['umbra'])]))
