"""Distributions, observation filter and summary table (S01, S02, U01-U03)."""
import copy
import itertools
import math

from vlib.harness_api import harness

ST = 'oneka.stochastic'
UT = 'oneka.utilities'
INF, NAN = float('inf'), float('nan')


# ------------------------------------------------------------------------------------------------------------------ S01
def le2(c, a, b):
    """a <= b with NaN and infinities"""
    if isinstance(a, float) and not math.isfinite(a) or isinstance(b, float) and not math.isfinite(b):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return c.true(False)
        if a == INF or b == -INF:
            return c.true(isinstance(a, float) and isinstance(b, float) and a <= b)
        return c.true(True)
    return c.le(a, b)


def entry(c, name, kind):
    if kind == 'real':
        return c.real(name, soft=(-2, 6))
    if kind == 'int':
        return c.integer(name, -3, 8)
    return {'nan': NAN, 'inf': INF, '-inf': -INF}[kind]


KINDS = ('real', 'int', 'nan', 'inf', '-inf')
BOUNDS = ('both', 'low', 'none', 'zero', 'unit')


@harness('S01', quick=[{'n': n, 'box': b, 'lb': l} for n in (0, 2, 3) for b in (('tuple', 'list') if n else ('-',)) for l in BOUNDS] +
         [{'n': n, 'box': b, 'lb': 'both'} for n in (1, 4, 5) for b in ('tuple', 'list')] + [{'n': 9, 'box': b, 'lb': l} for b in ('tuple', 'list') for l in ('both', 'none')])
def check_of_distributions(c):
    """constants and tuples/lists of 0 to 5 entries, each entry a symbolic real, a symbolic integer, NaN or an infinity (all kinds for
    constants and pairs, four patterns of triples and all-symbolic ones), bounds symbolic, one-sided, infinite, or the ones of the package:
    the answer is true exactly for ordered entries within the bounds (inclusive)."""
    p = c.params
    n = 0 if p['n'] == 9 else p['n']
    if p['lb'] == 'both':
        lb = c.real('lb', soft=(-1, 1))
        ub = c.real('ub', soft=(3, 5))
    else:
        lb, ub = {'low': (c.real('lb', soft=(-1, 1)), INF), 'none': (-INF, INF), 'zero': (0, INF), 'unit': (0, 1)}[p['lb']]
    if p['box'] == '-':
        v = [entry(c, 'v', KINDS[c.choice('kind', 5)])]
        arg = v[0]
    else:
        if n == 2:
            kinds = [KINDS[c.choice('kind%d' % i, 5)] for i in range(2)]
        elif n == 3:
            kinds = [('real',) * 3, ('int',) * 3, ('real', 'nan', 'real'), ('-inf', 'real', 'inf'), ('nan', 'real', 'real'), ('real', 'real', 'nan'), ('real', 'int', 'inf')][c.choice('pattern', 7)]
        else:
            kinds = ['real'] * n
        v = [entry(c, 'v%d' % i, k) for i, k in enumerate(kinds)]
        arg = tuple(v) if p['box'] == 'tuple' else list(v)
    r = c.must('isdistribution', c.mod(ST).isdistribution, arg, lb, ub)
    got = bool(r)
    if not (p['box'] == '-' or n in (2, 3)):
        c.check('other lengths are rejected', c.true(not got))
        return
    seq = [lb] + v + [ub]
    ok = c.all([le2(c, a, b) for a, b in zip(seq[:-1], seq[1:])])
    c.check('accepted exactly when ordered and within bounds', ok if got else c.not_(ok), got)


@harness('S01', quick=[{'what': w} for w in ('None', 'str', 'dict', 'set', 'complex', 'object', 'array', 'pairs', 'nested')])
def other_types(c):
    """None, text, dictionaries, sets, complex numbers, objects, nested lists and NumPy arrays are rejected without an error."""
    a = c.real('a', 1, 2)
    w = c.params['what']
    arg = {'None': lambda: None, 'str': lambda: '5', 'dict': lambda: {0: a, 1: a}, 'set': lambda: {1.0, 2.0}, 'complex': lambda: 1 + 2j, 'object': object,
           'array': lambda: c.numpy.array([1.0, 2.0]), 'pairs': lambda: {1.0: 2.0}.items(), 'nested': lambda: [[1.0, 2.0]]}[w]()
    r = c.must('isdistribution', c.mod(ST).isdistribution, arg, 0, INF)
    c.check('rejected', c.true(not bool(r)))


# ------------------------------------------------------------------------------------------------------------------ S02
def drawn(c, kind, args, value, draws):
    """value is a variate of the distribution: a draw of numpy's generator, or a linear map of one standard uniform draw"""
    def one(d):
        k, a, v = d
        if kind == 'uniform':
            if k == 'uniform' and not all(isinstance(u, (int, float)) and u == w for u, w in zip(a, (0, 1))):
                return c.and_(c.eqs(a, args), c.eq(value, v))
            if k == 'uniform':
                k = 'random'
            if k == 'random':
                return c.or_(c.eq(value, args[0] + (args[1] - args[0]) * v), c.eq(value, args[1] + (args[0] - args[1]) * v))
            return c.true(False)
        if k == 'triangular':
            return c.and_(c.eqs(a, args), c.eq(value, v))
        return c.true(False)
    return c.any([one(d) for d in draws])


def make_dist(c, name, box, n, lo=-50, hi=50, whole=()):
    """symbolic valid distribution"""
    v = [c.integer('%s%d' % (name, i), lo, hi) if i in whole else c.real('%s%d' % (name, i), lo, hi, soft=(max(lo, -8), min(hi, 8))) for i in range(max(n, 1))]
    for a, b in zip(v[:-1], v[1:]):
        c.assume(a <= b)
    return (v[0] if box == '-' else tuple(v) if box == 'tuple' else list(v)), v


@harness('S02', quick=[{'n': 0, 'box': '-'}] + [{'n': n, 'box': b} for n in (2, 3) for b in ('tuple', 'list')] + [{'n': n, 'box': b, 'whole': w} for n, b, w in ((0, '-', (0,)), (2, 'tuple', (0, 1)), (2, 'list', (1,)), (3, 'list', (0, 1, 2)), (3, 'tuple', (0, 2)))],
         thorough=[{'n': 0, 'box': '-', 'whole': w} for w in ((), (0,))] + [{'n': n, 'box': b, 'whole': tuple(i for i in range(n) if k >> i & 1)} for n in (2, 3) for b in ('tuple', 'list') for k in range(2 ** n)])
def variates(c):
    """constants, pairs and triples (tuples and lists) of symbolic non-decreasing values up to a million, reals or integers, coinciding ones included; numpy.random is a stub
    with its refusals (triangular needs left <= mode <= right, left < right) and arbitrary values of the support: one variate and the mean."""
    p = c.params
    arg, v = make_dist(c, 'v', p['box'], p['n'], -10 ** 6, 10 ** 6, p.get('whole', ()))
    x = c.must('variate', c.mod(ST).generate_random_variate, arg)
    draws = list(c.draws)
    c.check('within the support', c.and_(c.le(v[0], x), c.le(x, v[-1])))
    if p['n'] == 0:
        c.check('a constant yields itself', c.eq(x, v[0]))
        c.check('a constant draws nothing', c.true(not draws))
    elif p['n'] == 2:
        c.check('uniform between the ends', c.or_(c.eq(v[0], v[1]), drawn(c, 'uniform', v, x, draws)), draws)
    else:
        ok = drawn(c, 'triangular', v, x, draws)
        if not any(d[0] == 'triangular' for d in draws) and draws:
            # inverse transform of a standard uniform number
            ok = c.true(True) if [d[0] for d in draws] == ['random'] else ok
        c.check('triangular with minimum, mode, maximum', c.or_(c.and_(c.eq(v[0], v[2]), c.eq(x, v[0])), ok), draws)
    m = c.must('mean', c.mod(ST).compute_variate_mean, arg)
    c.check('mean', c.eq(m * len(v), sum(v)))
    c.check('mean within the support', c.and_(c.le(v[0], m), c.le(m, v[-1])))
    c.check('argument unchanged', c.same(arg, v[0] if p['box'] == '-' else tuple(v) if p['box'] == 'tuple' else list(v)))


@harness('S02', quick=[{'n': n, 'box': b} for n in (0, 1, 4, 5) for b in ('tuple', 'list')])
def other_arity(c):
    """tuples and lists of 0, 1, 4 or 5 symbolic values: both functions raise the distribution error."""
    p = c.params
    v = [c.real('v%d' % i) for i in range(p['n'])]
    arg = tuple(v) if p['box'] == 'tuple' else v
    for f in ('generate_random_variate', 'compute_variate_mean'):
        _, e = c.call(getattr(c.mod(ST), f), arg)
        c.check('%s refuses' % f, c.true(e is not None and any(t.__name__ == 'DistributionError' for t in type(e).__mro__)), repr(e))


# ------------------------------------------------------------------------------------------------------------------ U01, U02
def dist2(p, q):
    return (p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1])


def apart(c, a, b):
    """comparison of squares, away from near ties in real runs (exact ties are kept)"""
    if not c.symbolic:
        c.assume(a == b or abs(a - b) > 1e-6 * (1 + abs(b)))
    return a <= b


@harness('U01', quick=[{'obs': o, 'wells': w, 'axis': x} for o, w, x in ((1, 1, 0), (1, 1, 1), (2, 1, 0), (1, 2, 0), (2, 2, 1), (3, 1, 1), (1, 3, 1), (2, 2, 2), (2, 0, 1))],
         thorough=[{'obs': o, 'wells': w, 'axis': x} for o in (1, 2, 3) for w in (0, 1, 2, 3) for x in (0, 1, 2) if o * w <= 6] + [{'obs': 5, 'wells': 1, 'axis': 1}], paths=20000)
def buffer_filter(c):
    """1-3 observations and 0-3 wells; observation coordinates, values, deviations and the buffer symbolic, wells on a fixed grid with
    symbolic radii and discharges (or on the line of the observations: axis 1, 2; discharges zero, negative, ranges), observations at pairwise distances of at least one: kept exactly when farther than the
    buffer from every well, unchanged and in order; inputs unchanged."""
    p = c.params
    b = c.real('buffer', gt=0, hi=500, soft=(1, 6))
    wells = []
    for i in range(p['wells']):
        if p['axis'] == 0:
            w = (3.0 * i, -2.0 * i * i, c.real('rw%d' % i, gt=0, hi=9), c.real('qw%d' % i, -500, 500))
        elif p['axis'] == 1:
            w = (c.real('xw%d' % i, -500, 500), 2.0, 0.5, ((1.0, 2.0), 0, -75.0)[i % 3])
        else:
            w = (5.0, c.real('yw%d' % i, -500, 500), 12.0, ([1.0, 2.0, 3.0], 0.0, (-5.0, 0.0))[i % 3])
        wells.append(w)
    obs = []
    for i in range(p['obs']):
        x = c.real('x%d' % i, -500, 500) if p['axis'] < 2 else 5.0
        y = c.real('y%d' % i, -500, 500) if p['axis'] != 1 else 2.0
        obs.append((x, y, c.real('z%d' % i), c.real('s%d' % i, gt=0)))
    for q, r in itertools.combinations(obs, 2):
        if p['axis'] == 0:
            c.assume(c.lt(1, dist2(q, r)))
        else:
            d = (q[0] - r[0]) + (q[1] - r[1])
            c.assume(c.or_(c.lt(1, d), c.lt(d, -1)))
    o0, w0 = copy.deepcopy(obs), copy.deepcopy(wells)
    r = c.must('filter_obs', c.mod(UT).filter_obs, obs, wells, b)
    want = []
    for ob in obs:
        near = False
        for w in wells:
            if p['axis'] == 0:
                near = apart(c, dist2(ob, w), b * b)
            else:
                near = apart(c, abs((ob[0] - w[0]) + (ob[1] - w[1])), b)
            if near:
                break
        if not near:
            want.append(ob)
    c.check('number kept', c.true(len(r) == len(want)), '%d, expected %d' % (len(r), len(want)))
    for a, e in zip(r, want):
        c.check('kept unchanged and in order', c.eqs(list(a), list(e)))
    c.check('inputs unchanged', c.and_(c.same(obs, o0), c.same(wells, w0)))


@harness('U01', quick=[{'obs': 20, 'wells': 6}, {'obs': 60, 'wells': 1}, {'obs': 4, 'wells': 150}], thorough=[{'obs': n, 'wells': w} for n in (10, 30, 150) for w in (1, 10, 25)] + [{'obs': 6, 'wells': 1000}], paths=20000)
def many(c):
    """20 observations and 6 wells, 60 and 1, 4 and 150 (150 and 25, 6 and 1000 thorough) at fixed places, values and deviations symbolic, buffer symbolic up to 40."""
    p = c.params
    b = c.real('buffer', gt=0, hi=40, soft=(1, 40))
    wells = [(float((37 * i) % 101), float((53 * i) % 89), 0.5, float(i % 3)) for i in range(p['wells'])] if p['wells'] < 100 else \
        [(-200.0 - 3 * i, 40.0 + (7 * i) % 11, 0.5, 1.0) for i in range(p['wells'] - 3)] + [(30.0, 30.0, 0.5, 1.0), (99.0, 5.0, 0.25, 0.0), (-10.0, 90.0, 1.0, 5.0)]
    obs = [(c.exact((61 * i) % 103 + 0.5), c.exact((29 * i) % 97 + 0.25 + i / 1024), c.real('z%d' % i), c.real('s%d' % i, gt=0)) for i in range(p['obs'])]
    o0, w0 = copy.deepcopy(obs), copy.deepcopy(wells)
    r = c.must('filter_obs', c.mod(UT).filter_obs, obs, wells, b)
    want = [ob for ob in obs if not apart(c, min(dist2(ob, w) for w in wells), b * b)]
    c.check('number kept', c.true(len(r) == len(want)), '%d, expected %d' % (len(r), len(want)))
    for a, e in zip(r, want):
        c.check('kept unchanged and in order', c.eqs(list(a), list(e)))
    c.check('inputs unchanged', c.and_(c.same(obs, o0), c.same(wells, w0)))


def patterns(n):
    """set partitions of n places as strings like ABA"""
    out = []

    def go(s, k):
        if len(s) == n:
            out.append(s)
            return
        for j in range(k + 1):
            go(s + chr(65 + j), max(k, j + 1))
    go('', 0)
    return out


@harness('U02', quick=[{'pat': p} for n in (1, 2, 3, 4) for p in patterns(n)] + [{'pat': p} for p in ('ABABA', 'ABCAB', 'AABBC', 'ABBCA', 'ABCDA', 'AAAAA', 'AAAAAAAA', 'ABCDEFGHIJKLMNOA', 'ABCDEFABCDEF')],
         thorough=[{'pat': p} for n in (1, 2, 3, 4, 5) for p in patterns(n)] + [{'pat': p} for p in ('ABCABC', 'ABCCBA', 'AABBCC', 'ABACAD', 'AAAAAAAAAA', 'ABCDEFGHIJKLMNOPQRSTUVWXYZA', 'ABCDEFGHABCDEFGH')], paths=20000)
def merging(c):
    """1-5 observations (5, 6 thorough) spread over locations in every pattern (all set partitions up to 4), and some of 8 to 27; values, deviations and the x
    coordinates symbolic, distinct locations at least one apart, no well near: one observation per location, with the
    inverse-variance mean and variance; single ones unchanged and in their order; inputs unchanged."""
    pat = c.params['pat']
    loc = {}
    for ch in sorted(set(pat)):
        k = ord(ch) - 65
        loc[ch] = (c.real('x' + ch, 100 * k, 100 * k + 50, soft=(100 * k, 100 * k + 50)), (7.0, -3.0, 7.0)[k % 3])
    obs = [(loc[ch][0], loc[ch][1], c.real('z%d' % i, soft=(-8, 8)), c.real('s%d' % i, gt=0.01, hi=100, soft=(0.5, 4))) for i, ch in enumerate(pat)]
    wells = [(-5000.0, 0.0, 0.5, 100.0), (0.0, 5000.0, 0.25, 50.0)]
    o0, w0 = copy.deepcopy(obs), copy.deepcopy(wells)
    r = c.must('filter_obs', c.mod(UT).filter_obs, obs, wells, 100.0)
    c.check('inputs unchanged', c.and_(c.same(obs, o0), c.same(wells, w0)))
    c.check('one observation per location', c.true(len(r) == len(loc)), '%d, expected %d' % (len(r), len(loc)))
    found = {}
    for a in r:
        c.check('an observation has four values', c.true(len(a) == 4))
        for ch, (x, y) in loc.items():
            if bool((a[1] == y) and (a[0] == x)) if not c.symbolic else c.canon(a[0]) == c.canon(x) and a[1] == y:
                c.check('no two at one location', c.true(ch not in found))
                found[ch] = a
                break
        else:
            c.fail('location of a retained observation', repr(a))
    c.check('every location is retained', c.true(set(found) == set(loc)))
    single = [ch for ch in pat if pat.count(ch) == 1]
    c.check('order of the others', c.true([ch for a in r for ch in found if found[ch] is a and ch in single] == single))
    for ch, a in found.items():
        grp = [o for o, q in zip(obs, pat) if q == ch]
        if len(grp) == 1:
            c.check('single ones unchanged', c.eqs(list(a), list(grp[0])))
            continue
        w = [1 / (o[3] * o[3]) for o in grp]
        tot = sum(w)
        c.check('inverse-variance mean', c.eq(a[2] * tot, sum(u * o[2] for u, o in zip(w, grp))))
        c.check('variance is the reciprocal of the sum', c.eq(a[3] * a[3] * tot, 1))
        c.check('deviation is positive', c.lt(0, a[3]))
        for o in grp:
            c.check('deviation not above any merged one', c.le(a[3] * a[3], o[3] * o[3] * (1 if c.symbolic else 1 + 1e-9)))


@harness('U02', quick=[{'n': n} for n in (2, 3)], thorough=[{'n': n} for n in (2, 3, 4)])
def mean_lies_between(c):
    """2-3 duplicates (4 thorough), first value smallest, second largest: the merged value lies between them."""
    n = c.params['n']
    z = [c.real('z%d' % i) for i in range(n)]
    s = [c.real('s%d' % i, gt=0.01, hi=100, soft=(0.5, 4)) for i in range(n)]
    for v in z[2:]:
        c.assume(c.and_(c.le(z[0], v), c.le(v, z[1])))
    c.assume(c.le(z[0], z[1]))
    r = c.must('filter_obs', c.mod(UT).filter_obs, [(5.0, 6.0, a, b) for a, b in zip(z, s)], [(-5000.0, 0.0, 0.5, 1.0)], 100.0)
    c.check('one observation', c.true(len(r) == 1))
    tiny = 0 if c.symbolic else 1e-9
    c.check('between the smallest and largest', c.and_(c.le(z[0] - tiny, r[0][2]), c.le(r[0][2], z[1] + tiny)))


@harness('U02', quick=[{'pat': p} for p in ('AAB', 'ABA', 'BAA', 'ABAB')], thorough=[{'pat': p} for p in ('AAB', 'ABA', 'BAA', 'ABAB', 'AABB', 'ABBA', 'ABAA')])
def merging_and_dropping(c):
    """duplicates at two locations, each of which may lie within the (symbolic) buffer of the well: dropped together or merged."""
    pat = c.params['pat']
    b = c.real('buffer', 1, 30, soft=(2, 30))
    loc = {'A': (10.0, 0.0), 'B': (0.0, 20.0)}
    obs = [loc[ch] + (c.real('z%d' % i), c.real('s%d' % i, gt=0.01, hi=100, soft=(0.5, 4))) for i, ch in enumerate(pat)]
    r = c.must('filter_obs', c.mod(UT).filter_obs, obs, [(0.0, 0.0, 0.5, 1.0)], b)
    left = [ch for ch, d in (('A', 10), ('B', 20)) if not apart(c, d, b)]
    c.check('number kept', c.true(len(r) == len(left)), '%d, expected %d' % (len(r), len(left)))
    for a in r:
        grp = [o for o in obs if (o[0], o[1]) == (a[0], a[1])]
        w = [1 / (o[3] * o[3]) for o in grp]
        c.check('merged value', c.and_(c.true(len(grp) > 0), c.eq(a[2] * sum(w), sum(u * o[2] for u, o in zip(w, grp)))))


# ------------------------------------------------------------------------------------------------------------------ U03
def table(c, text, names, n):
    """{statistic: [(value, slack)]} and the order of the columns, from the printed table"""
    rows = {}
    head = None
    for line in text.split('\n'):
        s = line.strip()
        m = s.split(':', 1)
        if len(m) == 2 and m[0].strip().lower() in ('cnt', 'min', 'med', 'max', 'avg', 'std'):
            rows[m[0].strip().lower()] = c.numbers(m[1])
        elif all(k in s for k in names) and head is None:
            head = s
    return rows, head


@harness('U03', quick=[{'rows': r, 'cols': k, 'nan': m} for r, k, m in ((1, 2, 0), (2, 2, 0), (3, 1, 0), (3, 3, 1), (4, 1, 2), (3, 2, 1), (4, 1, 0))],
         thorough=[{'rows': r, 'cols': k, 'nan': m} for r in (1, 2, 3, 4, 5) for k in (1, 2) for m in (0, 1, 2) if m < r or r == 1 and m == 0], paths=20000, time=400)
def summary(c):
    """data of 1-4 rows (5 thorough) and 1-3 columns, symbolic, up to two missing (NaN) values per column at symbolic places, every column
    keeping a value: the six printed lines and the heading. Order statistics by all orderings."""
    p = c.params
    n, k = p['rows'], p['cols']
    names = ['East', 'North', 'Level'][:k]
    data = [[c.real('v%d_%d' % (i, j), soft=(-90, 90)) for j in range(k)] for i in range(n)]
    for j in range(k):
        if p['nan'] and j != 1:
            for _ in range(p['nan']):
                data[c.choice('nan%d_%d' % (j, _), n)][j] = NAN
    for j in range(k):
        if all(isinstance(r[j], float) and r[j] != r[j] for r in data):
            c.cut('a column without a value')
    values = [tuple(r) for r in data]
    buf = c.must('summary', c.mod(UT).summary_statistics, values, names, ['12.4f', '14.6f', '13.3f'][:k], 'TITLE of it')
    text = buf.getvalue()
    rows, head = table(c, text, names, n)
    c.check('title', c.true('TITLE of it' in text))
    c.check('six statistics', c.true(set(rows) == {'cnt', 'min', 'med', 'max', 'avg', 'std'}), sorted(rows))
    c.check('heading in the order of the columns', c.true(head is not None and head.split() == names), head)
    for s, r in rows.items():
        c.check('one number per column', c.true(len(r) == k), (s, r))
    for j in range(k):
        x = [r[j] for r in data if not (isinstance(r[j], float) and r[j] != r[j])]
        m = len(x)

        def eq(s, v):
            g, slack = rows[s][j]
            c.check('%s' % s, c.eq(g, v, tol=slack + 1e-9 * abs(float(v)) if not c.symbolic else None), (s, j))
        eq('cnt', m)
        o = []
        for v in x:                      # insertion sort
            i = len(o)
            while i and o[i - 1] > v:
                i -= 1
            o.insert(i, v)
        eq('min', o[0])
        eq('max', o[-1])
        eq('med', o[m // 2] if m % 2 else (o[m // 2 - 1] + o[m // 2]) / 2)
        mean = sum(x) / m
        eq('avg', mean)
        var = sum((v - mean) * (v - mean) for v in x) / m
        g, slack = rows['std'][j]
        if c.symbolic:
            c.check('std', c.and_(c.eq(g * g, var), c.le(0, g)))
        else:
            c.check('std', c.eq(g, math.sqrt(var), tol=slack))


@harness('U03', quick=[{'rows': r} for r in (3, 5)], thorough=[{'rows': r} for r in (3, 4, 5, 7)], validate=2)
def summary_infinite(c):
    """3 and 5 rows (7 thorough) of which one value is infinite: it counts, and the minimum and the median are those of all values."""
    n = c.params['rows']
    data = [(math.inf if i == 1 else c.real('v%d' % i, 3 * i, 3 * i + 1, soft=(3 * i, 3 * i + 1)),) for i in range(n)]
    text = c.must('summary', c.mod(UT).summary_statistics, data, ['East'], ['12.4f'], 'TITLE of it').getvalue()
    rows, head = table(c, text, ['East'], n)
    x = [d[0] for i, d in enumerate(data) if i != 1] + [math.inf]
    for s, v in (('cnt', n), ('min', x[0]), ('med', x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2)):
        c.check(s, c.true(s in rows and len(rows[s]) == 1))
        g, slack = rows[s][0]
        c.check(s, c.eq(g, v, tol=slack if not c.symbolic else None))


@harness('U03', quick=[{'rows': r} for r in (7, 12)], thorough=[{'rows': r} for r in (6, 7, 8, 12, 25, 60)], time=400, validate=2)
def summary_large(c):
    """7 and 12 rows (60 thorough): every value symbolic in a range of its own (ranges in a scrambled order, so that the ranking is known),
    every fifth value of the second column missing."""
    n = c.params['rows']
    names = ['East', 'North']
    step = next(q for q in (5, 7, 11) if n % q)
    rank = [(i * step) % n for i in range(n)]
    col = [[c.real('v%d_%d' % (i, j), 3 * k - 20, 3 * k - 18, soft=(3 * k - 20, 3 * k - 18)) for i, k in enumerate(rank)] for j in (0, 1)]
    data = [(col[0][i], NAN if i % 5 == 1 else col[1][i]) for i in range(n)]
    text = c.must('summary', c.mod(UT).summary_statistics, data, names, ['12.4f', '14.6f'], 'TITLE of it').getvalue()
    rows, head = table(c, text, names, n)
    c.check('six statistics', c.true(set(rows) == {'cnt', 'min', 'med', 'max', 'avg', 'std'}), sorted(rows))
    for j in (0, 1):
        o = [col[j][i] for i in sorted(range(n), key=lambda i: rank[i]) if not (j and i % 5 == 1)]
        m = len(o)
        mean = sum(o) / m
        for s, v in (('cnt', m), ('min', o[0]), ('max', o[-1]), ('med', o[m // 2] if m % 2 else (o[m // 2 - 1] + o[m // 2]) / 2), ('avg', mean)):
            g, slack = rows[s][j]
            c.check(s, c.eq(g, v, tol=slack + 1e-9 * abs(float(v)) if not c.symbolic else None), (s, j))
        var = sum((v - mean) * (v - mean) for v in o) / m
        g, slack = rows['std'][j]
        if c.symbolic:
            c.check('std', c.and_(c.eq(g * g, var), c.le(0, g)))
        else:
            c.check('std', c.eq(g, math.sqrt(var), tol=slack))
