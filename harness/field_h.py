"""Probability field (F01-F05)."""
from vlib.harness_api import harness

PF = 'oneka.probabilityfield'


def fields(c):
    return c.mod(PF).ProbabilityField


def spacing(c, tag=''):
    return c.real(tag + 'dx', gt=0, soft=(0.5, 4)), c.real(tag + 'dy', gt=0, soft=(0.5, 4))


def steps(c, label, lo, hi, d, most):
    """hi - lo as a whole number of steps d (0..most)"""
    if not c.symbolic:
        k = int(round((hi - lo) / d))
        c.check(label, c.and_(c.eq(lo + k * d, hi), c.true(0 <= k <= most)))
        return k
    for k in range(most + 1):
        if c.eq(lo + k * d, hi).t is True:
            return k
    for k in range(most + 1):
        if lo + k * d == hi:
            return k
    c.fail(label, 'not a whole number of steps')


def geometry(c, f, label):
    """extents, counts and array shapes agree"""
    c.check(label + ': shapes', c.true(tuple(f.pgrid.shape) == (f.nrows, f.ncols) == tuple(f.rgrid.shape) and f.nrows > 1 and f.ncols > 1))
    c.check(label + ': extents match counts', c.and_(c.eq(f.xmax, f.xmin + (f.ncols - 1) * f.deltax), c.eq(f.ymax, f.ymin + (f.nrows - 1) * f.deltay)))


def fill(c, f, tag, marks=None):
    """every node gets a symbolic accumulated value; marks in a fixed asymmetric pattern"""
    for i in range(f.nrows):
        for j in range(f.ncols):
            f.pgrid[i, j] = c.real('%sp%d_%d' % (tag, i, j), 0, soft=(0, 4))
            f.rgrid[i, j] = marks(i, j) if marks else (i * 2 + j * 3 + i * j) % 5 < 2
    f.total_weight = c.real(tag + 'tw', 0)


def snap(f):
    return dict(xmin=f.xmin, xmax=f.xmax, ymin=f.ymin, ymax=f.ymax, nrows=f.nrows, ncols=f.ncols, dx=f.deltax, dy=f.deltay,
                p=[[f.pgrid[i, j] for j in range(f.ncols)] for i in range(f.nrows)],
                r=[[bool(f.rgrid[i, j]) for j in range(f.ncols)] for i in range(f.nrows)], tw=f.total_weight)


def same_geometry(c, f, s):
    return c.all([c.true(f.nrows == s['nrows'] and f.ncols == s['ncols']), c.eq(f.xmin, s['xmin']), c.eq(f.xmax, s['xmax']), c.eq(f.ymin, s['ymin']),
                  c.eq(f.ymax, s['ymax']), c.eq(f.deltax, s['dx']), c.eq(f.deltay, s['dy'])])


def same_field(c, f, s):
    conds = [same_geometry(c, f, s), c.eq(f.total_weight, s['tw'])]
    if (f.nrows, f.ncols) != (s['nrows'], s['ncols']):
        return c.true(False)
    for i in range(s['nrows']):
        for j in range(s['ncols']):
            conds += [c.eq(f.pgrid[i, j], s['p'][i][j]), c.true(bool(f.rgrid[i, j]) == s['r'][i][j])]
    return c.all(conds)


def grown(c, f, s, label, most=8):
    """f is s grown: old nodes keep place, value and mark; new nodes are zero and unmarked"""
    geometry(c, f, label)
    c.check(label + ': spacing kept', c.and_(c.eq(f.deltax, s['dx']), c.eq(f.deltay, s['dy'])))
    cs = steps(c, label + ': old columns stay on the lattice', f.xmin, s['xmin'], f.deltax, most)
    rs = steps(c, label + ': old rows stay on the lattice', f.ymin, s['ymin'], f.deltay, most)
    c.check(label + ': grid not shrunk', c.true(cs + s['ncols'] <= f.ncols and rs + s['nrows'] <= f.nrows))
    conds = []
    for i in range(f.nrows):
        for j in range(f.ncols):
            old = 0 <= i - rs < s['nrows'] and 0 <= j - cs < s['ncols']
            conds.append(c.eq(f.pgrid[i, j], s['p'][i - rs][j - cs] if old else 0))
            conds.append(c.true(bool(f.rgrid[i, j]) == (s['r'][i - rs][j - cs] if old else False)))
    c.check(label + ': nodes', c.all(conds))
    c.check(label + ': total weight', c.eq(f.total_weight, s['tw']))


def contains(c, f, box):
    x0, x1, y0, y1 = box
    return c.all([c.le(f.xmin, x0), c.le(x1, f.xmax), c.le(f.ymin, y0), c.le(y1, f.ymax)])


SIDES = ['left', 'right', 'bottom', 'top']


def box_near(c, f, grow, tag):
    """a symbolic box reaching up to grow[side] cells beyond the field on each side"""
    x0, x1, y0, y1 = [c.real(tag + n) for n in ('x0', 'x1', 'y0', 'y1')]
    c.assume(c.lt(f.xmin - grow[0] * f.deltax, x0))
    c.assume(c.lt(x1, f.xmax + grow[1] * f.deltax))
    c.assume(c.lt(f.ymin - grow[2] * f.deltay, y0))
    c.assume(c.lt(y1, f.ymax + grow[3] * f.deltay))
    c.assume(c.le(x0, x1))
    c.assume(c.le(y0, y1))
    return x0, x1, y0, y1


def expanding(c, f, box, label):
    s = snap(f)
    x0, x1, y0, y1 = box
    inside = x0 > f.xmin and x1 < f.xmax and y0 > f.ymin and y1 < f.ymax
    c.must(label, f.expand, x0, x1, y0, y1)
    if inside:
        c.check(label + ': strictly inside changes nothing', same_field(c, f, s))
    c.check(label + ': box contained', contains(c, f, box))
    grown(c, f, s, label)


# ------------------------------------------------------------------------------------------------------------------ F01
@harness('F01', quick=[{'grow': g} for g in ((2, 2, 0, 0), (0, 0, 2, 2), (2, 0, 1, 0), (0, 2, 0, 1), (1, 0, 0, 2), (0, 1, 2, 0), (1, 1, 1, 1), (3, 0, 0, 0), (0, 0, 0, 3))],
         thorough=[{'grow': g} for g in ((3, 3, 0, 0), (0, 0, 3, 3), (2, 2, 2, 0), (2, 2, 0, 2), (2, 0, 2, 2), (0, 2, 2, 2), (2, 2, 2, 2), (5, 0, 0, 0), (0, 5, 0, 0), (0, 0, 5, 0), (0, 0, 0, 5))],
         paths=20000)
def expand_located(c):
    """expand of a located 3x3 field with symbolic spacing, location, accumulated values and total weight (marks in a fixed asymmetric
    pattern), to a symbolic box overlapping it or next to it, growing up to 'grow' cells per side (1-3 quick, up to 5 thorough)."""
    dx, dy = spacing(c)
    xo, yo = c.real('xo'), c.real('yo')
    f = fields(c)(dx, dy, xo, yo)
    geometry(c, f, 'new field')
    c.check('new field: centred', c.and_(c.eq(f.xmin + f.deltax, xo), c.eq(f.ymin + f.deltay, yo)))
    c.check('new field: empty', c.and_(c.eq(f.total_weight, 0), c.true(not f.rgrid.any() and not any(bool(v != 0) for v in f.pgrid.reshape(-1)))))
    fill(c, f, 'a')
    expanding(c, f, box_near(c, f, c.params['grow'], 'b'), 'expand')


@harness('F01', quick=[{'a': a, 'b': b} for a in ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 0, 1, 0)) for b in ((2, 1, 0, 0), (0, 0, 1, 2), (1, 0, 1, 0), (0, 1, 0, 1))],
         thorough=[{'a': a, 'b': b} for a in ((1, 1, 0, 0), (0, 0, 1, 1), (1, 0, 1, 0), (0, 1, 0, 1), (1, 0, 0, 1)) for b in ((2, 2, 0, 0), (0, 0, 2, 2), (1, 1, 1, 1), (2, 0, 0, 2))],
         paths=20000)
def expand_twice(c):
    """two successive expansions of a located field, with registration in between (weight symbolic); the second box symbolic as above."""
    dx, dy = spacing(c)
    f = fields(c)(dx, dy, c.real('xo'), c.real('yo'))
    fill(c, f, 'a')
    expanding(c, f, box_near(c, f, c.params['a'], 'b'), 'first')
    f.register(c.real('w', 0))
    f.rgrid[1, 0] = True
    f.rgrid[f.nrows - 1, 1] = True
    expanding(c, f, box_near(c, f, c.params['b'], 'd'), 'second')


@harness('F01', quick=[{'nx': a, 'ny': b, 'then': t} for a, b, t in ((3, 1, 0), (1, 3, 0), (0, 0, 0), (2, 1, 1), (1, 2, 1), (0, 1, 1))],
         thorough=[{'nx': a, 'ny': b, 'then': t} for a in (0, 1, 3, 5) for b in (0, 1, 3) for t in (0, 1)], paths=20000)
def expand_unlocated(c):
    """first expansion of a field without location to a symbolic box up to nx by ny cells (degenerate included), then optionally a second
    expansion by up to one cell per side."""
    dx, dy = spacing(c)
    f = fields(c)(dx, dy)
    x0, y0 = c.real('x0'), c.real('y0')
    w, h = (c.real('w', 0, soft=(0, 4)) if c.params['nx'] else 0.0), (c.real('h', 0, soft=(0, 4)) if c.params['ny'] else 0.0)
    c.assume(c.le(w, c.params['nx'] * dx))
    c.assume(c.le(h, c.params['ny'] * dy))
    c.must('expand', f.expand, x0, x0 + w, y0, y0 + h)
    geometry(c, f, 'located')
    c.check('located: box contained', contains(c, f, (x0, x0 + w, y0, y0 + h)))
    c.check('located: empty', c.all([c.eq(f.total_weight, 0), c.true(not f.rgrid.any())] + [c.eq(v, 0) for v in f.pgrid.reshape(-1)]))
    if c.params['then']:
        fill(c, f, 'a')
        expanding(c, f, box_near(c, f, (1, 1, 0, 0) if c.params['ny'] == 1 else (0, 0, 1, 1), 'd'), 'then')


@harness('F01', quick=[{'which': w, 'located': l} for w in ('x', 'y', 'both') for l in (0, 1)])
def inverted(c):
    """an inverted box (either or both axes), symbolic, on a located or unlocated field: range error, nothing changes."""
    dx, dy = spacing(c)
    f = fields(c)(dx, dy, c.real('xo'), c.real('yo')) if c.params['located'] else fields(c)(dx, dy)
    if c.params['located']:
        fill(c, f, 'a')
        s = snap(f)
    x0, x1, y0, y1 = [c.real(n) for n in ('x0', 'x1', 'y0', 'y1')]
    w = c.params['which']
    c.assume(c.lt(x1, x0) if w != 'y' else c.le(x0, x1))
    c.assume(c.lt(y1, y0) if w != 'x' else c.le(y0, y1))
    if c.params['located']:
        for v, lo, hi in ((x0, f.xmin, f.xmax), (x1, f.xmin, f.xmax), (y0, f.ymin, f.ymax), (y1, f.ymin, f.ymax)):
            c.assume(c.lt(lo - 2 * (dx if lo is f.xmin else dy), v))
            c.assume(c.lt(v, hi + 2 * (dx if lo is f.xmin else dy)))
    r, e = c.call(f.expand, x0, x1, y0, y1)
    c.check('refused', c.true(isinstance(e, c.mod(PF).RangeError)), repr(e))
    if c.params['located']:
        c.check('nothing changed', same_field(c, f, s))
    else:
        c.check('still unlocated', c.true(f.nrows == 0 and f.ncols == 0))


@harness('F01', quick=[{'side': s, 'far': n} for s, n in (('left', 35), ('right', 12), ('bottom', 20), ('top', 35), ('right', 70))],
         thorough=[{'side': s, 'far': n} for s in SIDES for n in (7, 20, 70, 150)], forks=4000)
def expand_far(c):
    """expand of a located field to a box reaching 12 to 70 cells (150 thorough) beyond one side, and more than one cell beyond the one after it, its
    position within two cells symbolic; spacing, values and total weight symbolic."""
    dx, dy = spacing(c)
    f = fields(c)(dx, dy, c.real('xo'), c.real('yo'))
    fill(c, f, 'a')
    k, n = SIDES.index(c.params['side']), c.params['far']
    ext = [0.5, 0.5, 0.5, 0.5]
    ext[k], ext[(k + 1) % 4] = n + c.real('t', -1, 1, soft=(-1, 1)), 1.25
    box = (f.xmin - ext[0] * dx, f.xmax + ext[1] * dx, f.ymin - ext[2] * dy, f.ymax + ext[3] * dy)
    s = snap(f)
    c.must('expand', f.expand, *box)
    c.check('box contained', contains(c, f, box))
    grown(c, f, s, 'expand', n + 8)


@harness('F01', quick=[{'side': s, 'cells': n} for s, n in ((0, 700), (1, 1100), (2, 1100), (3, 700))], thorough=[{'side': s, 'cells': n} for s in range(4) for n in (300, 1100, 5000)], forks=40000)
def expand_further(c):
    """expand of a located 3x3 field of given geometry with symbolic contents to a box 700 and 1100 cells away on one side (5000 thorough), at
    a symbolic place of the last cell."""
    side, n = c.params['side'], c.params['cells']
    f = fields(c)(c.exact(1), c.exact(0.75), c.exact(0.5), c.exact(0.25))
    fill(c, f, 'a')
    t = c.real('t', 0.125, 0.875, soft=(0.125, 0.875))
    box = [f.xmin + c.exact(0.5), f.xmax - c.exact(0.5), f.ymin + c.exact(0.25), f.ymax - c.exact(0.25)]
    box[side] = [f.xmin, f.xmax, f.ymin, f.ymax][side] + (n - 1 + t) * (-1, 1)[side % 2] * [f.deltax, f.deltay][side // 2]
    s = snap(f)
    c.must('expand', f.expand, *box)
    c.check('expand: box contained', contains(c, f, box))
    grown(c, f, s, 'expand', n + 8)


# ------------------------------------------------------------------------------------------------------------------ F02
def spec_d2(c, ax, ay, bx, by, cx, cy):
    """squared distance point-segment by clamped projection"""
    ux, uy, vx, vy = bx - ax, by - ay, cx - ax, cy - ay
    dot, l2 = ux * vx + uy * vy, ux * ux + uy * uy
    if dot <= 0:
        return vx * vx + vy * vy
    if dot >= l2:
        return (cx - bx) * (cx - bx) + (cy - by) * (cy - by)
    return vx * vx + vy * vy - dot * dot / l2


def segment(c):
    return [c.real(n) for n in ('ax', 'ay', 'bx', 'by')], [c.real(n) for n in ('cx', 'cy')]


@harness('F02', quick=[{}])
def minimal(c):
    """distancesquared for every segment of positive length and every point (6 symbolic reals): equals the clamped-projection distance,
    is >= 0, and is <= the squared distance to the point of the segment at a symbolic parameter t in [0, 1]."""
    (ax, ay, bx, by), (cx, cy) = segment(c)
    l2 = (bx - ax) * (bx - ax) + (by - ay) * (by - ay)
    c.assume(c.lt(0, l2))
    f = fields(c).distancesquared
    d2 = c.must('distance', f, ax, ay, bx, by, cx, cy)
    if not c.symbolic:
        c.assume(l2 > 1e-8)
    dot = (bx - ax) * (cx - ax) + (by - ay) * (cy - ay)
    if dot <= 0:
        tip = 0
    elif dot >= l2:
        tip = 1
    else:
        tip = dot / l2
    px, py = ax + tip * (bx - ax), ay + tip * (by - ay)
    spec = (cx - px) * (cx - px) + (cy - py) * (cy - py)
    c.check('attained at the nearest point', c.eq(d2, spec))
    c.check('non-negative', c.le(0, spec))
    # any other point of the segment: |c - (a + t u)|^2 - spec, with spec the value above
    t = c.real('t', 0, 1)
    ux, uy = bx - ax, by - ay
    # |c-a-tu|^2 - |c-a-tip u|^2 = (t - tip) ((t + tip) l2 - 2 dot); with tip = dot/l2 this is l2 (t - tip)^2
    if dot <= 0:
        c.check('not larger than at any other point', c.le(0, t * (t * l2 - 2 * dot)))
    elif dot >= l2:
        c.check('not larger than at any other point', c.le(0, (t - 1) * ((t + 1) * l2 - 2 * dot)))
    else:
        c.check('not larger than at any other point', c.le(0, (t * l2 - dot) * (t * l2 - dot)))


@harness('F02', quick=[{}])
def symmetric(c):
    """endpoint order does not matter (positive length, symbolic); translation by a symbolic vector does not matter either."""
    (ax, ay, bx, by), (cx, cy) = segment(c)
    c.assume(c.lt(0, (bx - ax) * (bx - ax) + (by - ay) * (by - ay)))
    if not c.symbolic:
        c.assume((bx - ax) ** 2 + (by - ay) ** 2 > 1e-8)
    f = fields(c).distancesquared
    d = c.must('distance', f, ax, ay, bx, by, cx, cy)
    c.check('order of endpoints', c.eq(d, c.must('distance', f, bx, by, ax, ay, cx, cy)))


@harness('F02', quick=[{}])
def degenerate(c):
    """zero-length segments: the squared distance to the point, for every point."""
    ax, ay, cx, cy = [c.real(n) for n in ('ax', 'ay', 'cx', 'cy')]
    f = fields(c).distancesquared
    d = c.must('distance', f, ax, ay, ax, ay, cx, cy)
    c.check('distance to the point', c.eq(d, (cx - ax) * (cx - ax) + (cy - ay) * (cy - ay)))


# ------------------------------------------------------------------------------------------------------------------ F03
def cells(c, nr, nc, dx, dy, xo, yo):
    """a field of nr x nc nodes obtained from public operations"""
    f = fields(c)(dx, dy, xo, yo)
    if nc > 3 or nr > 3:
        f.expand(xo, xo + (nc - 3) * dx + dx / 2 if nc > 3 else xo, yo, yo + (nr - 3) * dy + dy / 2 if nr > 3 else yo)
    return f


DIRECTIONS = {'point': (0, 0), 'east': (1, 0), 'west': (-1, 0), 'north': (0, 1), 'south': (0, -1), 'ne': (3, 4), 'nw': (-1, 2), 'se': (2, -1),
              'sw': (-5, -3), 'diag': (1, 1)}


@harness('F03', quick=[{'node': n, 'seg': s} for n in ((0, 0), (1, 2)) for s in DIRECTIONS] + [{'node': (2, 1), 'seg': s} for s in ('ne', 'sw', 'point')],
         thorough=[{'node': (i, j), 'seg': s} for i in range(3) for j in range(3) for s in list(DIRECTIONS) + ['general']], check_ms=20000)
def insert_target(c):
    """one target node of a 3x3 field with every other node already marked; segment with symbolic start and symbolic length in each of
    nine directions, or zero length (thorough: also both endpoints free), anywhere within two cells of the field; symbolic umbra up to one
    and a half cells, unit spacing, location (0, 0): the node is marked iff its distance to the segment is < umbra; nothing else changes."""
    f = fields(c)(1.0, 1.0, 0.0, 0.0)
    ti, tj = c.params['node']
    fill(c, f, 'a', lambda i, j: (i, j) != (ti, tj))
    s = snap(f)
    far = dict(lo=-3, hi=3)
    ax, ay = c.real('ax', **far), c.real('ay', **far)
    seg = c.params['seg']
    u = c.real('u', gt=0, hi=1.5)
    cx, cy = tj - 1.0, ti - 1.0
    if seg == 'general':
        bx, by = c.real('bx', **far), c.real('by', **far)
        c.assume(c.lt(1e-6, (bx - ax) * (bx - ax) + (by - ay) * (by - ay)))
        c.must('insert', f.insert, ax, ay, bx, by, u)
        d2 = spec_d2(c, ax, ay, bx, by, cx, cy)
        lim = u * u
    else:
        p, q = DIRECTIONS[seg]
        n = p * p + q * q
        L = c.real('L', gt=0.001, hi=2, soft=(0.25, 1)) if n else 0.0
        c.must('insert', f.insert, ax, ay, ax + p * L, ay + q * L, u)
        vx, vy = cx - ax, cy - ay
        along = vx * p + vy * q
        if along <= 0:
            d2, lim = vx * vx + vy * vy, u * u
        elif along >= L * n:
            d2, lim = (vx - p * L) * (vx - p * L) + (vy - q * L) * (vy - q * L), u * u
        else:
            across = vx * q - vy * p
            d2, lim = across * across, u * u * n
    got = bool(f.rgrid[ti, tj])
    f.rgrid[ti, tj] = False
    c.check('nothing else changed', same_field(c, f, s))
    if not c.symbolic:
        c.assume(abs(d2 - lim) > 1e-7)
    if got:
        c.check('marked only when close', c.lt(d2, lim))
    else:
        c.check('close is marked', c.le(lim, d2))


# families with one symbolic parameter: the whole grid, no stubs
SHAPES = {
    'diagonal': [(0.3, 0.2), (1.6, 1.1)],
    'steep': [(0.45, -0.4), (0.8, 1.9)],
    'reverse': [(1.7, 0.35), (0.15, 0.9)],
    'flat': [(-0.2, 0.5), (1.9, 0.5)],
    'upright': [(0.75, 1.8), (0.75, -0.3)],
    'point': [(0.4, 0.6), (0.4, 0.6)],
    'short': [(0.4, 0.6), (0.45, 0.58)],
}
MOVES = {'x': (1, 0), 'y': (0, 1)}


def one_parameter(c, pts, move, u0):
    """vertices and umbra depending on one symbolic number"""
    pts = [(c.exact(x), c.exact(y)) for x, y in pts]
    u0 = c.exact(u0)
    if move in MOVES:
        span = c.params.get('span', 1.25)
        t = c.real('t', -span, span, soft=(-span, span))
        a, b = MOVES[move]
        return [(x + a * t, y + b * t) for x, y in pts], u0
    if move == 'umbra':
        return pts, c.real('t', gt=0, hi=1.75, soft=(0, 1.75))
    reach = c.params.get('reach', 1.25)
    t = c.real('t', -reach, reach, soft=(-reach, reach))
    k = int(move[-1])
    return [(x + t, y + t / 2) if i == k else (x, y) for i, (x, y) in enumerate(pts)], u0


def distances(c, segs, cx, cy):
    return [spec_d2(c, a[0], a[1], b[0], b[1], cx, cy) for a, b in segs]


@harness('F03', quick=[{'shape': s, 'move': m} for s in SHAPES for m in ('x', 'y', 'umbra', 'vertex1')],
         thorough=[{'shape': s, 'move': m, 'u': u, 'size': z} for s in SHAPES for m in ('x', 'y', 'umbra', 'vertex1', 'vertex0') for u in (0.3, 0.75, 1.3) for z in ((3, 3), (4, 5))])
def insert_grid(c):
    """whole grid (3x3, spacing 1 x 0.75; 4x5 thorough), some nodes marked beforehand; seven segment shapes with one symbolic parameter
    (translation along x or y reaching outside the field, umbra, or one endpoint): every node is marked iff it was or is closer than the
    umbra; accumulated values, total and geometry unchanged."""
    nr, nc = c.params.get('size', (3, 3))
    f = cells(c, nr, nc, c.exact(1), c.exact(0.75), c.exact(0.5), c.exact(0.25))
    fill(c, f, 'a', lambda i, j: (i, j) == (1, 2))
    s = snap(f)
    pts, u = one_parameter(c, SHAPES[c.params['shape']], c.params['move'], c.params.get('u', 0.6))
    (ax, ay), (bx, by) = pts
    c.must('insert', f.insert, ax, ay, bx, by, u)
    marks = [[bool(f.rgrid[i, j]) for j in range(f.ncols)] for i in range(f.nrows)]
    nodes(c, f, s, marks, [((ax, ay), (bx, by))], u)
    for i in range(f.nrows):
        for j in range(f.ncols):
            f.rgrid[i, j] = s['r'][i][j]
    c.check('nothing else changed', same_field(c, f, s))


LONG = {'rise': [(2.3, 1.2), (17.6, 12.1)], 'fall': [(20.4, 0.7), (1.2, 9.5)], 'row': [(-3.0, 4.4), (25.0, 4.4)], 'steep': [(6.1, 13.0), (8.7, -2.0)]}


@harness('F03', quick=[{'shape': s, 'move': m, 'u': u, 'span': 0.4, 'reach': 0.4} for s, m, u in (('rise', 'x', 0.8), ('fall', 'umbra', 2.0), ('row', 'y', 3.1), ('steep', 'vertex1', 1.1), ('rise', 'vertex0', 4.5))]
         + [{'shape': s, 'move': m, 'u': u, 'span': 0.4, 'reach': 0.4, 'marks': 'most'} for s, m, u in (('fall', 'x', 3.0), ('row', 'umbra', 2.0), ('steep', 'y', 4.5))],
         thorough=[{'shape': s, 'move': m, 'u': u, 'marks': k} for k in ('some', 'most') for s in LONG for m in ('x', 'y', 'umbra', 'vertex0', 'vertex1') for u in (0.8, 2.0, 4.5)], paths=20000, forks=20000)
def insert_large(c):
    """a field of 15x23 nodes (spacing 1 x 0.75), some or most marked beforehand; long segments crossing, leaving or entering it, with one symbolic
    parameter; umbra 0.8 to 4.5 cells: every node is marked iff it was or is closer than the umbra; nothing else changes."""
    f = cells(c, 15, 23, c.exact(1), c.exact(0.75), c.exact(0.5), c.exact(0.25))
    for i in range(f.nrows):
        for j in range(f.ncols):
            f.pgrid[i, j] = c.exact((i * 7 + j) / 4)
            f.rgrid[i, j] = ((i * 5 + j * 3) % 17 == 0) != (c.params.get('marks') == 'most')
    s = snap(f)
    pts, u = one_parameter(c, LONG[c.params['shape']], c.params['move'], c.params['u'])
    (ax, ay), (bx, by) = pts
    c.must('insert', f.insert, ax, ay, bx, by, u)
    marks = [[bool(f.rgrid[i, j]) for j in range(f.ncols)] for i in range(f.nrows)]
    nodes(c, f, s, marks, [((ax, ay), (bx, by))], u)
    for i in range(f.nrows):
        for j in range(f.ncols):
            f.rgrid[i, j] = s['r'][i][j]
    c.check('nothing else changed', same_field(c, f, s))


def nodes(c, f, s, marks, segs, u):
    bad = c.true(True)
    for i in range(f.nrows):
        for j in range(f.ncols):
            cx, cy = f.xmin + j * f.deltax, f.ymin + i * f.deltay
            was = s['r'][i][j] if s else False
            if was:
                c.check('earlier marks stay', c.true(marks[i][j]))
                continue
            conds = []
            for (a, b) in segs:
                d2 = spec_d2(c, a[0], a[1], b[0], b[1], cx, cy)
                if not c.symbolic and abs(d2 - u * u) < 1e-7:
                    c.assume(False)
                conds.append(c.lt(d2, u * u))
            close = c.any(conds)
            if marks[i][j]:
                c.check('marked only when close', close)
            else:
                c.check('close is marked', c.not_(close))


# ------------------------------------------------------------------------------------------------------------------ F04
TRACKS = {
    'one': [(0.3, 0.2), (1.6, 1.1)],
    'flat': [(0.125, 0.5), (2.25, 0.5)],
    'upright': [(0.75, 1.75), (0.75, -0.25)],
    'bend': [(0.25, 0.3), (1.5, 0.4), (1.7, 1.6)],
    'repeat': [(0.4, 0.6), (0.4, 0.6), (1.3, 0.7)],
    'return': [(0.2, 0.4), (1.8, 0.9), (0.6, 0.5)],
    'still': [(0.4, 0.6), (0.4, 0.6)],
    'short': [(0.4, 0.6), (0.45, 0.58)],
    'crawl': [(0.3, 0.3), (0.3, 0.3), (0.304, 0.302), (0.308, 0.304)],
    'loop': [(0.2, 0.1), (1.1, -0.3), (2.2, 0.2), (2.4, 1.1), (1.3, 1.6), (0.4, 1.2), (0.2, 0.1)],
    'creep': [(-0.2, 0.95), (0.9, 1.05), (0.905, 1.05), (0.909, 1.054), (0.912, 1.057)],
}
CELLS = {'wide': (1, 0.75), 'tall': (0.75, 1), 'thin': (0.5, 1.5)}


def cell(c):
    dx, dy = CELLS[c.params.get('cell', 'wide')]
    return c.exact(dx), c.exact(dy)


def lattice_nodes(c, f, ox, oy, pts, u):
    """The lattice through (ox, oy) near the track, as (p, q, x, y), whether or not it lies in the grid: it reaches at least the umbra
    beyond the track on all sides (the coordinates depend on one symbol only, in a bounded range)."""
    lo_p, hi_p, lo_q, hi_q = c.params.get('window', (-3, 5, -3, 5))
    return [(p, q, ox + p * f.deltax, oy + q * f.deltay) for p in range(lo_p, hi_p + 1) for q in range(lo_q, hi_q + 1)]


def index_of(c, f, ox, oy):
    """lattice coordinates of the grid's first node"""
    def whole(v, d):
        if not c.symbolic:
            return int(round(v / d))
        r = v / d
        for k in range(-12, 13):
            if r == k:
                return k
        c.fail('grid stays on its lattice', 'first node is off the lattice')
    p, q = whole(f.xmin - ox, f.deltax), whole(f.ymin - oy, f.deltay)
    c.check('grid stays on its lattice', c.and_(c.eq(f.xmin, ox + p * f.deltax), c.eq(f.ymin, oy + q * f.deltay)))
    return p, q


def raster_check(c, f, ox, oy, before, segs, pts, u, label=''):
    """before: set of (p, q) marked earlier"""
    geometry(c, f, 'grid' + label)
    p0, q0 = index_of(c, f, ox, oy)
    for (p, q, x, y) in lattice_nodes(c, f, ox, oy, pts, u):
        i, j = q - q0, p - p0
        inside = 0 <= i < f.nrows and 0 <= j < f.ncols
        marked = inside and bool(f.rgrid[i, j])
        if (p, q) in before:
            c.check('earlier marks stay' + label, c.true(marked))
            continue
        d2s = [spec_d2(c, a[0], a[1], b[0], b[1], x, y) for a, b in segs]
        if not c.symbolic:
            c.assume(all(abs(d - u * u) > 1e-7 for d in d2s))
        close = c.any([c.lt(d, u * u) for d in d2s])
        if marked:
            c.check('marked only when close' + label, close)
        else:
            c.check('close nodes are in the grid and marked' + label, c.not_(close))


def marked_set(f, p0, q0):
    return {(p0 + j, q0 + i) for i in range(f.nrows) for j in range(f.ncols) if f.rgrid[i, j]}


def segs_of(pts):
    return list(zip(pts[:-1], pts[1:]))


@harness('F04', quick=[{'track': t, 'move': m, 'start': s, 'reach': 0.4} for t in TRACKS if t != 'loop' for m, s in (('x', 'located'), ('umbra', 'located'), ('vertex1', 'located'), ('y', 'far')) if (t, m) != ('creep', 'vertex1')]
         + [{'track': 'loop', 'move': m, 'start': s, 'reach': 0.2, 'span': 0.2} for m, s in (('x', 'located'), ('vertex1', 'located'))]
         + [{'track': t, 'move': m, 'start': 'empty', 'reach': 0.25} for t in ('one', 'bend', 'repeat', 'still') for m in ('umbra', 'vertex1')]
         + [{'track': t, 'move': m, 'start': s, 'reach': 0.4, 'cell': z} for t, m, s, z in (('one', 'y', 'located', 'tall'), ('bend', 'x', 'grown', 'tall'), ('upright', 'umbra', 'located', 'thin'), ('crawl', 'x', 'located', 'tall'), ('creep', 'y', 'far', 'wide'))],
         thorough=[{'track': t, 'move': m, 'start': s, 'u': u} for t in TRACKS for m in ('x', 'y', 'umbra', 'vertex0', 'vertex1') for s in ('located', 'far', 'empty', 'grown') for u in (0.25, 0.6, 1.2)]
         + [{'track': t, 'move': m, 'start': s, 'u': 0.6, 'cell': z} for t in TRACKS for m in ('x', 'y', 'umbra', 'vertex1') for s in ('located', 'far', 'grown') for z in ('tall', 'thin')],
         paths=20000, forks=5000)
def track(c):
    """rasterize of eleven track shapes (2-7 vertices, closed ones, with repeated vertices, reversals and steps much shorter than a cell), cells wider than
    high and the reverse, one symbolic parameter (translation along x
    or y, one vertex, or the umbra, up to 1.75 cells), on a field located nearby, located far away, without location, or already grown;
    every lattice node within the umbra is in the grid and marked, and no other; some nodes are marked beforehand. Whole grid, no stubs."""
    start = c.params['start']
    dx, dy = cell(c)
    ox, oy = c.exact(0.5), c.exact(0.25)
    if start == 'empty':
        f = fields(c)(dx, dy)
    else:
        far = start == 'far'
        f = fields(c)(dx, dy, ox + (3 * dx if far else 0), oy - (3 * dy if far else 0))
        if start == 'grown':
            f.expand(ox - 3 * dx, ox + dx, oy, oy + 2 * dy)
    pts, u = one_parameter(c, TRACKS[c.params['track']], c.params['move'], c.params.get('u', 0.6))
    before = set()
    if start != 'empty':
        f.rgrid[0, 0] = True
        f.rgrid[2, 1] = True
        p0, q0 = index_of(c, f, ox, oy)
        before = marked_set(f, p0, q0)
    c.must('rasterize', f.rasterize, [p[0] for p in pts], [p[1] for p in pts], u)
    if start == 'empty':
        ox, oy = f.xmin + 3 * f.deltax, f.ymin + 3 * f.deltay       # any node fixes the lattice
    raster_check(c, f, ox, oy, before, segs_of(pts), pts, u)


@harness('F04', quick=[{'legs': n, 'spikes': s} for n, s in ((40, (7, 26)), (1500, (601, 902)))], thorough=[{'legs': n, 'spikes': s} for n, s in ((40, (7, 26)), (300, (9, 130)), (1500, (601, 902)), (12000, (77, 9002)))], paths=20000, forks=20000)
def tour(c):
    """rasterize of a track of 40 and of 1500 vertices (12000 thorough) that goes round and round a small circuit, with two excursions of one
    vertex each at places depending on a symbolic parameter: every node within the umbra of any leg is marked, and no other."""
    n, spikes = c.params['legs'], c.params['spikes']
    dx, dy, ox, oy = c.exact(1), c.exact(0.75), c.exact(0.5), c.exact(0.25)
    f = fields(c)(dx, dy, ox, oy)
    round_ = [(c.exact(x), c.exact(y)) for x, y in ((0.3, 0.2), (0.7, 0.3), (0.6, 0.6), (0.25, 0.5), (0.3, 0.2))]
    t = c.real('t', -0.3, 0.3, soft=(-0.3, 0.3))
    away = [(c.exact(2.2) + t, c.exact(1.3)), (c.exact(-0.7), c.exact(2.1))]
    pts = [away[spikes.index(i)] if i in spikes else round_[i % 5] for i in range(n)]
    u = c.exact(0.45)
    c.must('rasterize', f.rasterize, [p[0] for p in pts], [p[1] for p in pts], u)
    name = [('away', spikes.index(i)) if i in spikes else i % 5 for i in range(n)]
    legs = list({(p, q): (pts[i], pts[i + 1]) for i, (p, q) in enumerate(zip(name, name[1:]))}.values())
    raster_check(c, f, ox, oy, set(), legs, pts, u)


@harness('F04', quick=[{'legs': n, 'way': w} for n, w in ((700, 'east'), (1500, 'north'))], thorough=[{'legs': n, 'way': w} for n in (700, 6000) for w in ('east', 'north')], paths=20000, forks=40000)
def lane(c):
    """rasterize of a straight track of 700 and 1500 legs (6000 thorough), each crossing one row or column of nodes, beside the nodes by a
    symbolic distance less than the umbra: every node of the lane is marked, and no other."""
    n, east = c.params['legs'], c.params['way'] == 'east'
    d, ox, oy = c.exact(1), c.exact(0.5), c.exact(0.25)
    f = fields(c)(d, d, ox, oy)
    t = c.real('t', -0.25, 0.25, soft=(-0.25, 0.25))
    along = [c.exact((ox if east else oy) + 0.5 + i) for i in range(n + 1)]
    beside = [(oy if east else ox) + t] * (n + 1)
    c.must('rasterize', f.rasterize, *((along, beside) if east else (beside, along)), c.exact(0.45))
    geometry(c, f, 'lane')
    p0, q0 = index_of(c, f, ox, oy)
    want = {(k, 0) if east else (0, k) for k in range(1, n + 1)}
    got = marked_set(f, p0, q0)
    c.check('exactly the nodes of the lane', c.true(got == want), sorted(got ^ want)[:6])


@harness('F04', quick=[{'pair': p, 'move': m, 'reach': 0.4} for p in (('one', 'upright'), ('bend', 'still'), ('flat', 'repeat')) for m in ('x', 'vertex1')],
         thorough=[{'pair': (a, b), 'move': m} for a in TRACKS for b in TRACKS if a < b for m in ('x', 'y', 'vertex0', 'vertex1')], paths=20000)
def order(c):
    """two tracks, one of them depending on a symbolic parameter, rasterized in both orders on two fields with the same lattice but
    different extents: the same lattice nodes are marked."""
    a, b = c.params['pair']
    A, u = one_parameter(c, TRACKS[a], c.params['move'], 0.6)
    B = [(c.exact(x + 0.75), c.exact(y - 0.5)) for x, y in TRACKS[b]]
    dx, dy, ox, oy = c.exact(1), c.exact(0.75), c.exact(0.5), c.exact(0.25)
    f, g = fields(c)(dx, dy, ox, oy), fields(c)(dx, dy, ox + 2 * dx, oy)
    cols = lambda t: ([p[0] for p in t], [p[1] for p in t], u)
    if not c.symbolic:
        for s in segs_of(A) + segs_of(B):
            for (p, q, x, y) in lattice_nodes(c, f, ox, oy, None, u):
                c.assume(abs(spec_d2(c, s[0][0], s[0][1], s[1][0], s[1][1], x, y) - u * u) > 1e-7)
    for fld, seq in ((f, (A, B)), (g, (B, A))):
        for t in seq:
            c.must('rasterize', fld.rasterize, *cols(t))
    c.check('same nodes', c.true(marked_set(f, *index_of(c, f, ox, oy)) == marked_set(g, *index_of(c, g, ox, oy))))


# ------------------------------------------------------------------------------------------------------------------ F05
@harness('F05', quick=[{'marks': m} for m in range(6)], thorough=[{'marks': m} for m in range(64)])
def register(c):
    """register, reset, register on a located 3x3 field with symbolic accumulated values, total and weights and several patterns of
    marks: each marked node and the total gain the weight exactly once, other nodes keep their value, marks are cleared; reset clears the
    marks and changes nothing else; values stay within 0..total for non-negative weights."""
    dx, dy = spacing(c)
    f = fields(c)(dx, dy, c.real('xo'), c.real('yo'))
    m = c.params['marks']
    pat = [lambda i, j: False, lambda i, j: True, lambda i, j: i == j, lambda i, j: i == 0, lambda i, j: j == 2, lambda i, j: (i, j) == (2, 1)]
    mk = pat[m] if m < 6 else (lambda i, j: (m * 2654435761 >> (i * 3 + j)) & 1)
    fill(c, f, 'a', mk)
    for v in f.pgrid.reshape(-1):
        c.assume(c.le(v, f.total_weight))
    for k, what in enumerate(('register', 'register', 'reset', 'register', 'rasterless')):
        if k:
            for i in range(3):
                for j in range(3):
                    if (i + 2 * j + k) % 3 == 0:
                        f.rgrid[i, j] = True
        s = snap(f)
        if what == 'reset':
            c.must('reset', f.reset)
            w = 0
        else:
            if what == 'rasterless':
                f.rgrid[:] = False
                s = snap(f)
            w = c.real('w%d' % k, 0)
            c.must('register', f.register, w)
        c.check(what + ': geometry', same_geometry(c, f, s))
        c.check(what + ': total', c.eq(f.total_weight, s['tw'] + w))
        c.check(what + ': marked nodes', c.all([c.eq(f.pgrid[i, j], s['p'][i][j] + (w if s['r'][i][j] and what != 'reset' else 0)) for i in range(3) for j in range(3)]))
        c.check(what + ': marks cleared', c.true(tuple(f.rgrid.shape) == (3, 3) and not f.rgrid.any()))
        c.check(what + ': values within 0..total', c.all([c.and_(c.le(0, v), c.le(v, f.total_weight)) for v in f.pgrid.reshape(-1)]))


@harness('F05', quick=[{'ops': o} for o in ('R', 'W', 'WW', 'RW', 'WE', 'EW', 'WTW', 'TRTW', 'WRE', 'TWTW', 'TW' * 12, 'W' * 20)],
         thorough=[{'ops': a + b + d} for a in ('', 'W', 'R', 'WW') for b in 'ETWR' for d in ('W', 'TW', 'RTW', 'TWE')])
def unlocated(c):
    """histories starting from a field without location: R reset, W register with a symbolic non-negative weight, E expand to a small
    box, T rasterize a small track; the total is the sum of the weights, marks are cleared, and every value lies between 0 and it."""
    f = fields(c)(1.0, 1.0)
    total = 0
    pts = [(0.25, 0.25), (0.5, 0.75)]
    exp = {}
    for k, op in enumerate(c.params['ops']):
        if op == 'R':
            c.must('reset', f.reset)
        elif op == 'W':
            w = c.real('w%d' % k, 0)
            marks = [(round(f.xmin + j), round(f.ymin + i)) for i in range(f.nrows) for j in range(f.ncols) if f.rgrid[i, j]] if f.nrows else []
            c.must('register', f.register, w)
            total = total + w
        elif op == 'E':
            c.must('expand', f.expand, 0.0, 2.5, -1.0, 1.25)
        else:
            c.must('rasterize', f.rasterize, [p[0] for p in pts], [p[1] for p in pts], 1.0)
            c.check('track marks nodes', c.true(bool(f.rgrid.any())))
        if op in 'WR' and f.nrows:
            c.check('marks cleared', c.true(not f.rgrid.any()))
        c.check('total weight', c.eq(f.total_weight, total))
        if f.nrows:
            c.check('values within 0..total', c.all([c.and_(c.le(0, v), c.le(v, f.total_weight)) for v in f.pgrid.reshape(-1)]))
    if not f.nrows:
        f.expand(0.0, 1.0, 0.0, 1.0)
        c.check('total weight kept by the first expansion', c.eq(f.total_weight, total))
        c.check('values within 0..total', c.all([c.and_(c.le(0, v), c.le(v, f.total_weight)) for v in f.pgrid.reshape(-1)]))
