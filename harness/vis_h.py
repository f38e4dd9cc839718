"""Maps and curves (V01-V04)."""
from vlib.harness_api import harness
from harness.run_h import certain

VI, PF, MO = 'oneka.visualize', 'oneka.probabilityfield', 'oneka.model'


# ------------------------------------------------------------------------------------------------------------------ fields
def field(c, right=0, up=0, square=False, weight=True):
    """field of at least 3 + up rows and 3 + right columns with symbolic origin, spacings and total weight"""
    dx = c.real('dx', gt=0, soft=(0.5, 20))
    dy = dx if square else c.real('dy', gt=0, soft=(0.5, 20))
    f = c.mod(PF).ProbabilityField(dx, dy, c.real('xo', soft=(-50, 50)), c.real('yo', soft=(-50, 50)))
    if right or up:
        c.must('expand', f.expand, f.xmin, f.xmax + (right - 0.5) * dx if right else f.xmax, f.ymin, f.ymax + (up - 0.5) * dy if up else f.ymax)
    f.total_weight = c.real('T', lo=0, soft=(0, 9)) if weight else 0.0
    return f


def contents(c, f, kinds):
    """node values: 's' symbolic in [0, T], '0' zero, 'T' the total weight, 'h' half of it, 'a'-'c' repeats of the first symbolic values"""
    vals = []
    for n, k in enumerate(kinds):
        if k == 's':
            p = c.real('p%d' % n, lo=0, soft=(0, 9))
            c.assume(p <= f.total_weight)
            vals.append(p)
        else:
            vals.append({'0': lambda: 0.0, 'T': lambda: f.total_weight, 'h': lambda: f.total_weight / 2}.get(k, lambda: [v for v, q in zip(vals, kinds) if q == 's'][ord(k) - 97])())
    vals += [0.0] * (f.nrows * f.ncols - len(vals))
    for n, v in enumerate(vals):
        f.pgrid[n // f.ncols, n % f.ncols] = v
    return vals


def coordinates(f):
    return [f.xmin + j * f.deltax for j in range(f.ncols)], [f.ymin + i * f.deltay for i in range(f.nrows)]


def calls(c, *names):
    return [p for p in c.plots if p[0] in names]


def at_nodes(c, call, X, Y, Z):
    """the map call draws the values Z (rows along Y) at the coordinates X, Y"""
    np = c.numpy
    a = call[1]
    if len(a) < 3:
        return c.true(False)
    x, y, z = np.asarray(a[0]), np.asarray(a[1]), np.asarray(a[2])
    nr, nc = len(Y), len(X)
    if tuple(z.shape) != (nr, nc):
        return c.true(False)
    if x.ndim == 1:
        xs = [[x[j] for j in range(len(x))]] * nr
    else:
        xs = [list(r) for r in x]
    ys = [[v] * nc for v in y] if y.ndim == 1 else [list(r) for r in y]
    if len(xs) != nr or len(ys) != nr or any(len(r) != nc for r in xs + ys):
        return c.true(False)
    return c.all([c.and_(c.and_(c.eq(xs[i][j], X[j]), c.eq(ys[i][j], Y[i])), c.eq(z[i, j], Z[i][j])) for i in range(nr) for j in range(nc)])


def sites(c, nw=3, no=2):
    wells = [(c.real('xw%d' % i, soft=(-50, 50)), c.real('yw%d' % i, soft=(-50, 50)), 0.25, (1.0, 2.0)) for i in range(nw)]
    obs = [(c.real('xb%d' % i, soft=(-50, 50)), c.real('yb%d' % i, soft=(-50, 50)), c.real('zb%d' % i, soft=(50, 60)), 1.0) for i in range(no)]
    return wells, obs


def marked(c, points):
    """some call plots exactly these points"""
    out = []
    for n, a, k in calls(c, 'plot', 'scatter'):
        if len(a) < 2:
            continue
        x, y = [list(v) if isinstance(v, (list, tuple)) or hasattr(v, '__len__') else [v] for v in a[:2]]
        if len(x) == len(points) == len(y):
            out.append(c.all([c.and_(c.eq(u, p[0]), c.eq(v, p[1])) for u, v, p in zip(x, y, points)]))
    return c.any(out)


def refused(c, v, e):
    c.check('refused with the capture-zone error', c.true(e is not None and type(e).__name__ == 'CaptureZoneError' and isinstance(e, c.mod(VI).CaptureZoneError)), (v, repr(e)))
    c.check('nothing drawn', c.true(not calls(c, 'contourf', 'contour', 'fill', 'plot', 'semilogy', 'show')))


# ------------------------------------------------------------------------------------------------------------------ V01
@harness('V01', quick=[{'right': r, 'up': u, 'target': t} for r, u, t in ((0, 0, 0), (1, 0, 1), (0, 2, 2))] + [{'right': 0, 'up': 0, 'target': 31, 'wells': 40, 'obs': 250}],
         thorough=[{'right': r, 'up': u, 'target': t} for r in range(4) for u in range(4) for t in range(3)])
def probability_map(c):
    """fields of 3x3 to 5x4 nodes (up to 6x6 thorough) with symbolic origin, unequal spacings, total weight (zero included) and node values;
    three wells and two observations (40 and 250 in one case) and the smoothing width symbolic; the plotting library and scipy's filter are recording stubs."""
    p = c.params
    f = field(c, p['right'], p['up'])
    P = contents(c, f, 's' * (f.nrows * f.ncols))
    wells, obs = sites(c, p.get('wells', 3), p.get('obs', 2))
    smooth = c.real('smooth', lo=0, soft=(0, 2))
    v, e = c.call(c.mod(VI).create_probability_plot, p['target'], wells, obs, f, smooth)
    if f.total_weight <= 0:
        refused(c, v, e)
        return
    c.check('drawn', c.true(e is None), repr(e))
    X, Y = coordinates(f)
    T = f.total_weight
    Z = [[P[i * f.ncols + j] / T for j in range(f.ncols)] for i in range(f.nrows)]
    if smooth > 0:
        c.check('smoothed once', c.true(len(c.smooth_calls) == 1), len(c.smooth_calls))
        src, sigma, a, k, out = c.smooth_calls[0]
        c.check('smoothing width', c.eq(sigma, smooth))
        raw = [[P[i * f.ncols + j] for j in range(f.ncols)] for i in range(f.nrows)]
        if certain(c.eqarr(src, c.numpy.array(raw))):          # the filter is linear: smoothed before the division by the total weight
            Z = [[v / T for v in r] for r in out]
        else:
            c.check('smoothing of the probabilities', c.eqarr(src, c.numpy.array(Z)))
            Z = [list(r) for r in out]
    else:
        c.check('not smoothed', c.true(not c.smooth_calls))
    maps = calls(c, 'contourf', 'contour', 'pcolormesh')
    c.check('a map is drawn', c.true(any(m[0] != 'contour' for m in maps)))
    for m in maps:
        c.check('probability at each node', at_nodes(c, m, X, Y, Z))
    c.check('wells marked', marked(c, wells))
    c.check('target marked', marked(c, [wells[p['target']]]))
    c.check('retained observations marked', marked(c, obs))
    c.check('field unchanged', c.and_(c.eqs(f.pgrid.reshape(-1), P), c.eq(f.total_weight, T)))


@harness('V01')
def default_smoothing(c):
    """the smoothing argument left out: the probabilities themselves are drawn."""
    f = field(c)
    P = contents(c, f, 's' * 9)
    c.assume(f.total_weight > 0)
    wells, obs = sites(c)
    c.must('plot', c.mod(VI).create_probability_plot, 1, wells, obs, f)
    X, Y = coordinates(f)
    for m in calls(c, 'contourf', 'contour', 'pcolormesh'):
        c.check('probability at each node', at_nodes(c, m, X, Y, [[P[3 * i + j] / f.total_weight for j in range(3)] for i in range(3)]))
    c.check('not smoothed', c.true(not c.smooth_calls))


# ------------------------------------------------------------------------------------------------------------------ V02
CURVES = ('sss', 'ssss', 'sTsh', 'ssab0s', 'TTTTTTTTT', 'hhsTThah', '0')


@harness('V02', quick=[{'kinds': k} for k in CURVES], thorough=[{'kinds': k} for k in CURVES + ('sssss', 'sasbsch', 'ssshhTT0a', 'ssss0000s')], paths=60000)
def impact_curve(c):
    """3x3 fields with 1 to 4 (5 thorough) symbolic node values, repeated, full, half and zero ones beside them; total weight (zero
    included), spacing and origin symbolic."""
    f = field(c, square=True)
    P = contents(c, f, c.params['kinds'])
    s = f.deltax
    v, e = c.call(c.mod(VI).create_impact_plot, s, f)
    if f.total_weight <= 0:
        refused(c, v, e)
        return
    c.check('drawn', c.true(e is None), repr(e))
    pr, area = [list(x) for x in v]
    T = f.total_weight
    n = len(P)
    c.check('one pair per node', c.true(len(pr) == len(area) == n), (len(pr), len(area)))
    c.check('non-increasing', c.all([c.le(b, a) for a, b in zip(pr[:-1], pr[1:])]))
    c.check('between 0 and 1', c.all([c.and_(c.le(0, x), c.le(x, 1)) for x in pr]))
    # equal power sums: the same numbers with the same multiplicities
    for k in range(1, n + 1):
        c.check("the nodes' probabilities", c.eq(sum((x * T) ** k for x in pr), sum(x ** k for x in P), scale=(float(T) ** k * n) if not c.symbolic else None))
    c.check('area of the first k cells', c.eqs(area, [(k + 1) * s * s for k in range(n)]))
    c.check('field unchanged', c.and_(c.eqs(f.pgrid.reshape(-1), P), c.eq(f.total_weight, T)))
    for m in calls(c, 'semilogy'):
        xs = list(m[1][0])
        c.check('plotted against probability', c.true(len(xs) <= n and len(xs) == len(list(m[1][1]))))


# ------------------------------------------------------------------------------------------------------------------ V03
@harness('V02', quick=[{'right': r, 'up': u} for r, u in ((2, 3), (5, 0), (9, 12))] + [{'right': 107, 'up': 97, 'each': 601}], thorough=[{'right': r, 'up': u} for r in (0, 1, 2, 5, 9, 20) for u in (0, 3, 12, 30)], validate=2, forks=20000)
def impact_curve_large(c):
    """fields of 5x6 to 12x15 nodes (23x33 thorough): three of four nodes (of 110x100 nodes, every 601st) with a symbolic value in a range of its own (ranges in a scrambled
    order, so that the ranking is known), the others zero; total weight and spacing symbolic."""
    p = c.params
    f = field(c, p['right'], p['up'], square=True)
    n = f.nrows * f.ncols
    step = next(q for q in (7, 11, 13, 17, 19, 23, 29) if n % q)
    valued = lambda i: i % p['each'] == 5 if 'each' in p else i % 4
    P = [c.real('p%d' % i, 1 + (i * step) % n, 1.75 + (i * step) % n, soft=(1 + (i * step) % n, 1.75 + (i * step) % n)) if valued(i) else 0.0 for i in range(n)]
    for i, v in enumerate(P):
        f.pgrid[i // f.ncols, i % f.ncols] = v
    c.assume(f.total_weight > n + 1)
    s, T = f.deltax, f.total_weight
    pr, area = [list(x) for x in c.must('impact plot', c.mod(VI).create_impact_plot, s, f)]
    rank = sorted((i for i in range(n) if valued(i)), key=lambda i: -((i * step) % n))
    c.check('one pair per node', c.true(len(pr) == len(area) == n), (len(pr), len(area)))
    c.check('ranked probabilities', c.all([c.eq(x * T, P[i]) for x, i in zip(pr, rank)] + [c.eq(x, 0) for x in pr[len(rank):]]))
    c.check('area of the first k cells', c.eqs(area, [(k + 1) * s * s for k in range(n)]))


# ------------------------------------------------------------------------------------------------------------------ V03
@harness('V03', quick=[{'right': r, 'up': u, 'kinds': k} for r, u, k in ((0, 0, 'ss0s0sTs0'), (1, 0, 's0s0T0s000hs'), (0, 1, '0s0s0s0s00sT'))] + [{'right': 0, 'up': 0, 'kinds': '0s00T000s', 'wells': 40, 'obs': 250}],
         thorough=[{'right': r, 'up': u, 'kinds': k} for r, u, k in ((0, 0, 'sssssss'), (1, 0, 's0ss0T0sh0ss'), (0, 1, 'ss0sTss0s000'), (2, 2, 's00T0s00s0s00s00s0h00000s'), (3, 1, '0sss'), (0, 3, '0000ssss000s'))], paths=60000)
def capture_area(c):
    """fields of 3x3 to 4x3 nodes (5x5 thorough) with 5 (7 thorough) symbolic node values, symbolic origin, unequal spacings, total
    weight (zero included), wells and observations (40 and 250 in one case)."""
    p = c.params
    f = field(c, p['right'], p['up'])
    P = contents(c, f, p['kinds'])
    wells, obs = sites(c, p.get('wells', 3), p.get('obs', 2))
    v, e = c.call(c.mod(VI).create_deterministic_plot, 1, wells, obs, f)
    if f.total_weight <= 0:
        refused(c, v, e)
        return
    c.check('drawn', c.true(e is None), repr(e))
    X, Y = coordinates(f)
    hit = [(X[n % f.ncols], Y[n // f.ncols]) for n, x in enumerate(P) if x > 0]
    c.check('visited nodes times cell area', c.eq(v, len(hit) * f.deltax * f.deltay))
    polys = []
    for n, a, k in calls(c, 'fill'):
        a = list(a)
        while len(a) >= 2:
            polys.append((list(a[0]), list(a[1])))
            a = a[2:]
            if a and isinstance(a[0], str):
                a = a[1:]
    c.check('one cell per visited node', c.true(len(polys) == len(hit)), (len(polys), len(hit)))
    for x, y in hit:
        corners = [(x + sx * f.deltax / 2, y + sy * f.deltay / 2) for sx in (-1, 1) for sy in (-1, 1)]
        c.check('the cell centred on the node is filled',
                c.any([c.and_(c.all([c.any([c.and_(c.eq(u, q[0]), c.eq(w, q[1])) for u, w in zip(*g)]) for q in corners]),
                              c.all([c.any([c.and_(c.eq(u, q[0]), c.eq(w, q[1])) for q in corners]) for u, w in zip(*g)])) for g in polys]))
    c.check('wells marked', marked(c, wells))
    c.check('target marked', marked(c, [wells[1]]))
    c.check('retained observations marked', marked(c, obs))
    c.check('field unchanged', c.eqs(f.pgrid.reshape(-1), P))


# ------------------------------------------------------------------------------------------------------------------ V04
@harness('V04', quick=[{'what': w, 'rows': r, 'cols': k} for w in ('head', 'potential') for r, k in ((2, 3), (3, 2), (2, 2), (1, 4))] + [{'what': 'potential', 'rows': 12, 'cols': 9}, {'what': 'potential', 'rows': 7, 'cols': 7}, {'what': 'head', 'rows': 9, 'cols': 13, 'dry': 5}, {'what': 'head', 'rows': 70, 'cols': 2, 'dry': 7}, {'what': 'potential', 'rows': 70, 'cols': 2}, {'what': 'head', 'rows': 2, 'cols': 60, 'dry': 9}, {'what': 'potential', 'rows': 3, 'cols': 60}],
         thorough=[{'what': w, 'rows': r, 'cols': k} for w in ('head', 'potential') for r, k in ((2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (1, 4), (5, 1))] + [{'what': 'potential', 'rows': 40, 'cols': 30}, {'what': 'head', 'rows': 30, 'cols': 41, 'dry': 5}, {'what': 'head', 'rows': 20, 'cols': 20, 'dry': 3}], paths=20000)
def contour_maps(c):
    """grids of up to 3x2 nodes (3x3 thorough) over a symbolic extent; the model is a stub with an arbitrary value at every node and, for
    the head, every pattern of nodes where it raises the aquifer error; larger grids (12x9, 9x13, 70x2, 2x60, 3x60; 40x30 thorough) with a fixed pattern."""
    p = c.params
    nr, nc = p['rows'], p['cols']
    xmin, ymin = c.real('xmin', soft=(-50, 50)), c.real('ymin', soft=(-50, 50))
    xmax, ymax = xmin + c.real('w', gt=0, soft=(1, 90)), ymin + c.real('h', gt=0, soft=(1, 90))
    error = c.mod(MO).AquiferError
    seen = []

    def value(x, y):
        dry = p['what'] == 'head' and (len(seen) % p['dry'] == 2 if 'dry' in p else c.choice('dry%d' % len(seen), 2))
        v = None if dry else c.fresh('v%d' % len(seen), -1e7, 1e7)
        seen.append((x, y, v))
        if dry:
            raise error('dry')
        return v

    class Stub:
        compute_head = compute_potential = staticmethod(value)
        base = 0.0
    c.must('map', getattr(c.mod(VI), 'contour_' + p['what']), Stub(), xmin, xmax, ymin, ymax, nr, nc)
    X = [xmin + (xmax - xmin) * j / (nc - 1) if nc > 1 else xmin for j in range(nc)]
    Y = [ymin + (ymax - ymin) * i / (nr - 1) if nr > 1 else ymin for i in range(nr)]
    np = c.numpy
    maps = calls(c, 'contourf', 'contour', 'pcolormesh')
    c.check('a map is drawn', c.true(any(m[0] != 'contour' for m in maps)))
    for m in maps:
        z = np.asarray(m[1][2])
        c.check('rows along y, columns along x', c.true(tuple(z.shape) == (nr, nc)), z.shape)
        for i in range(nr):
            for j in range(nc):
                v = z[i, j]
                blank = isinstance(v, float) and v != v
                c.check('value of the model at the node', c.any([c.and_(c.and_(c.eq(x, X[j]), c.eq(y, Y[i])), c.true(blank) if w is None else c.and_(c.true(not blank), c.true(False) if blank else c.eq(v, w)))
                                                                  for x, y, w in seen]))
        c.check('at the nodes of the requested extent', at_nodes(c, (m[0], (m[1][0], m[1][1], np.zeros((nr, nc)))), X, Y, [[0.0] * nc] * nr))
