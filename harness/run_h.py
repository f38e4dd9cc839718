"""Stochastic and deterministic runs (S03-S05) and the recharge they log (S04, E05)."""
import copy
import math

from vlib.harness_api import harness
from harness.field_h import geometry, index_of, spec_d2
from harness.util_h import drawn

ST, DT, CZ, MO = 'oneka.stochastic', 'oneka.deterministic', 'oneka.capturezone', 'oneka.model'
OBS = [(-300.0, 20.0, 60.0, 1.0), (280.0, 60.0, 62.0, 2.0), (10.0, 310.0, 61.0, 1.5), (-40.0, -290.0, 59.5, 1.0), (220.0, 230.0, 61.5, 0.5),
       (-240.0, -210.0, 60.5, 1.0), (-230.0, 260.0, 60.25, 2.0), (250.0, -240.0, 62.25, 1.0)]
POINTS = [(13.0, -7.0), (-170.0, 45.0)]


def number(c, name, lo, hi):
    return c.real(name, lo, hi, soft=(lo, hi))


def distribution(c, name, kind, lo, hi):
    """symbolic strictly increasing distribution of the given kind: c, t2, l2, t3, l3"""
    n = {'c': 1, '2': 2, '3': 3}[kind[-1]]
    w = (hi - lo) / n
    v = [number(c, '%s%d' % (name, i), lo + w * i, lo + w * (i + 0.75)) for i in range(n)]
    return v[0] if n == 1 else tuple(v) if kind[0] == 't' else v


def values(d):
    return list(d) if isinstance(d, (tuple, list)) else [d]


def same_value(c, a, b):
    if c.symbolic:
        return c.canon(a) == c.canon(b)
    return float(a) == float(b)


def certain(cond):
    """the condition holds identically (symbolic runs) or within tolerance (real runs)"""
    return (cond[0] if isinstance(cond, tuple) else cond.t) is True


class Draws:
    """Matches values with recorded draws; every draw serves once."""
    def __init__(self, c):
        self.c, self.used = c, set()

    def of(self, dist, value):
        c = self.c
        v = values(dist)
        if len(v) == 1:
            return c.eq(value, v[0])
        for i, d in enumerate(c.draws):
            if d[0] in ('uniform', 'triangular', 'random') and i not in self.used:
                ok = drawn(c, 'uniform' if len(v) == 2 else 'triangular', v, value, [d])
                if certain(ok):
                    self.used.add(i)
                    return ok
        return c.true(False)


def points(c):
    return POINTS[:1] if c.params.get('n', 1) > 1 and not c.params['confined'] else POINTS


def model_stubs(c):
    """fit_regional_flow replaced by a stub with arbitrary results of the original's shape; compute_capturezone by a recorder which
    evaluates the velocity function it is given at two points (one in unconfined runs of several realizations)."""
    Model = c.mod(MO).Model
    orig = Model.fit_regional_flow
    ev, cov = orig(Model(0.0, 1.0, 0.3, 10.0, []), OBS, 0.0, 0.0)
    shape = ev.shape
    fits, zones = [], []

    def fit(self, obs, xo, yo):
        n = len(fits)
        e = c.numpy.array([c.fresh('ev%d_%d' % (n, i), -2, 2) for i in range(6)])
        S = [[None] * 6 for _ in range(6)]
        for i in range(6):
            for j in range(i + 1):
                S[i][j] = S[j][i] = c.fresh('cov%d_%d%d' % (n, i, j), -1, 1) if i != j else 1.0 + i
        S = c.numpy.array(S)
        fits.append(dict(base=self.base, k=self.conductivity, p=self.porosity, t=self.thickness, wells=copy.deepcopy(self.wells), obs=copy.deepcopy(obs), xo=xo, yo=yo,
                         ev=list(e), cov=S.copy()))
        e = c.numpy.reshape(e, shape)
        self.xo, self.yo = xo, yo
        self.coef = e
        return e, S
    c.patch_attr(Model, 'fit_regional_flow', fit)

    def zone(d):
        d = dict(d)
        d['velocities'] = [c.call(d['feval'], c.numpy.array(list(p))) for p in points(c)]
        d['draws'] = len(c.draws)
        zones.append(d)
    c.record(CZ, 'compute_capturezone', zone)
    return fits, zones


def reference(c, conf, f, coef):
    """minus the velocity of the model with the properties at the fit and the coefficients, at the points"""
    mo = c.mod(MO).Model(f['base'], f['k'], f['p'], f['t'], f['wells'])
    mo.xo, mo.yo = f['xo'], f['yo']
    mo.coef = c.numpy.array(list(coef))
    out = []
    for x, y in points(c):
        v, e = c.call(mo.compute_velocity_confined if conf else mo.compute_velocity, x, y)
        out.append((None if e is not None else [-v[0], -v[1]], e))
    return out


def same_velocity(c, got, want):
    for (v, e), (w, f) in zip(got, want):
        if f is not None or e is not None:
            c.check('velocity fails where the model does', c.true(f is not None and e is not None), (repr(e), repr(f)))
        else:
            c.check('minus the velocity of the model', c.eqs(list(v), w))


CASES = {'constant': ('c', 'c', 'c', ('c', 'c')), 'pairs': ('t2', 't2', 't2', ('t2', 'c')), 'triples': ('t3', 't3', 't3', ('t3', 't2')), 'lists': ('l2', 'l3', 'l2', ('l3', 'l2')),
         'mixed': ('t2', 'c', 't3', ('c', 't3')), 'same': ('t2', 't2', 't2', ('t3', 't3'))}


def inputs(c, case):
    ck, pk, tk, qk = CASES[case]
    a = dict(target=c.params['target'], npaths=5, duration=number(c, 'duration', 1, 500), base=number(c, 'base', -20, 59),
             c_dist=distribution(c, 'k', ck, 0.0625, 3000), p_dist=distribution(c, 'p', pk, 0.1, 1.0), t_dist=distribution(c, 't', tk, 0.5, 300),
             stochastic_wells=[(0.0, 0.0, number(c, 'rw0', 0.25, 1), distribution(c, 'q', qk[0], -20000, 90000)),
                               (120.0, 90.0, number(c, 'rw1', 0.25, 1), distribution(c, 'r', qk[1], 50, 500))],
             observations=list(OBS), spacing=number(c, 'spacing', 1, 20), umbra=number(c, 'umbra', 1, 20), confined=bool(c.params['confined']),
             tol=number(c, 'tol', 0.1, 2), maxstep=number(c, 'maxstep', 1, 20))
    if case == 'same':                  # one and the same distribution, as the same object and as an equal one
        w = a['stochastic_wells']
        w[1] = w[1][:3] + (w[0][3],)
        w.append((-75.0, 140.0, 0.5, tuple(w[0][3])))
        a['t_dist'] = a['c_dist']
    return a


def settings(c, a, z):
    w = a['stochastic_wells'][a['target']]
    c.check('target location and radius', c.eqs([z['xtarget'], z['ytarget'], z['rtarget']], w[:3]))
    c.check('paths', c.true(z['npaths'] == a['npaths']))
    for k in ('duration', 'umbra', 'tol', 'maxstep'):
        c.check('%s of the run' % k, c.eq(z[k], a[k]))
    c.check('weight one', c.eq(z['weight'], 1))


def grid(c, a, f):
    w = a['stochastic_wells'][a['target']]
    c.check('grid of the requested spacing', c.eqs([f.deltax, f.deltay], [a['spacing']] * 2))
    c.check('the target is a node', c.and_(c.any([c.eq(f.xmin + j * f.deltax, w[0]) for j in range(f.ncols)]), c.any([c.eq(f.ymin + i * f.deltay, w[1]) for i in range(f.nrows)])))
    c.check('nothing counted yet', c.and_(c.eq(f.total_weight, 0), c.eqs(f.pgrid.reshape(-1), [0] * f.pgrid.size)))


@harness('S03', quick=[{'case': k, 'n': n, 'confined': cf, 'target': t} for k, n, cf, t in
                       (('constant', 1, 1, 0), ('constant', 2, 1, 1), ('pairs', 2, 1, 1), ('triples', 2, 1, 0), ('lists', 2, 1, 1), ('mixed', 3, 1, 1), ('pairs', 1, 0, 0), ('constant', 2, 0, 1), ('mixed', 4, 1, 0), ('same', 2, 1, 0), ('constant', 25, 1, 0))],
         thorough=[{'case': k, 'n': n, 'confined': cf, 'target': t} for k in CASES for n, cf in ((1, 1), (2, 1), (3, 1), (1, 0), (2, 0), (6, 1)) for t in (0, 1)] + [{'case': 'constant', 'n': 120, 'confined': 1, 'target': 0}], paths=20000)
def realizations(c):
    """a stochastic run of 1-4 and 25 realizations (6, 120 thorough) with two wells (three wells sharing one distribution in one case), all
    distributions and settings symbolic (constants, pairs, triples, lists, mixtures), confined or not; numpy.random, the fit (arbitrary mean and covariance; its correctness is M07) and
    compute_capturezone (C01) are recording stubs; the velocity function each realization hands over is evaluated at two points and
    compared with a model built anew from that realization's draws."""
    p = c.params
    a = inputs(c, p['case'])
    a['nrealizations'] = p['n']
    fits, zones = model_stubs(c)
    a0 = copy.deepcopy(a)
    f = c.must('stochastic run', c.mod(ST).create_stochastic_capturezone, **a)
    c.check('one capture zone per realization', c.true(len(zones) == p['n']), len(zones))
    c.check('inputs unchanged', c.same({k: v for k, v in a.items()}, a0))
    D = Draws(c)
    mvn = [d for d in c.draws if d[0] == 'mvn']
    seeds = [d[1] for d in c.draws if d[0] in ('seed', 'rng') and d[1]]
    c.check('the generator is not restarted', c.true(len(seeds) < 2 or len(set(map(repr, seeds))) == len(seeds)), seeds)
    c.check('one draw of coefficients per realization', c.true(len(mvn) == p['n'] and len(fits) >= p['n']), (len(mvn), len(fits)))
    used = set()
    for i, z in enumerate(zones):
        settings(c, a, z)
        c.check('registered in the returned field', c.true(z['pfield'] is f))
        # the fit the draw belongs to
        kind, (mean, cov), coef = mvn[i]
        c.check('mean is a vector', c.true(mean.shape == (6,)), mean.shape)
        g = [j for j, x in enumerate(fits) if j not in used and all(same_value(c, u, v) for u, v in zip(x['ev'], mean))]
        c.check('mean of a fit of this realization', c.true(bool(g)))
        used.add(g[0])
        x = fits[g[0]]
        c.check('covariance of the same fit', c.eqarr(cov, x['cov']))
        c.check('fit to all observations', c.same([list(o) for o in x['obs']], [list(o) for o in OBS]))
        c.check('base', c.eq(x['base'], a['base']))
        c.check('conductivity drawn anew', D.of(a['c_dist'], x['k']))
        c.check('porosity drawn anew', D.of(a['p_dist'], x['p']))
        c.check('thickness drawn anew', D.of(a['t_dist'], x['t']))
        c.check('all wells', c.true(len(x['wells']) == len(a['stochastic_wells'])))
        for w, s in zip(x['wells'], a['stochastic_wells']):
            c.check('fixed locations', c.eqs(list(w[:3]), list(s[:3])))
            c.check('discharge drawn anew', D.of(s[3], w[3]))
        same_velocity(c, z['velocities'], reference(c, a['confined'], x, coef))
    grid(c, a, f)


@harness('S03', quick=[{'case': 'constant', 'n': n, 'confined': 1, 'target': t} for n, t in ((2, 0), (1, 1))])
def again(c):
    """a second stochastic run with the same arguments, after the field of the first one was filled: it has a field of its own with nothing
    counted, and the first field keeps its contents; 1 and 2 realizations, all settings symbolic."""
    twice(c, c.mod(ST).create_stochastic_capturezone, dict(inputs(c, c.params['case']), nrealizations=c.params['n']), c.params['n'])


@harness('S04', quick=[{'case': 'pairs', 'confined': 1, 'target': 0}])
def again_deterministic(c):
    """the same for two deterministic runs."""
    twice(c, c.mod(DT).create_deterministic_capturezone, inputs(c, c.params['case']), 1)


def twice(c, run, a, n):
    fits, zones = model_stubs(c)
    f = c.must('first run', run, **a)
    v = c.real('left')
    f.pgrid[1, 1], f.total_weight = v, v
    m = len(zones)
    g = c.must('second run', run, **a)
    c.check('as many capture zones again', c.true(len(zones) == 2 * n == 2 * m), len(zones))
    c.check('a field of its own', c.true(g is not f and all(z['pfield'] is g for z in zones[m:])))
    grid(c, a, g)
    c.check('the first field is left alone', c.and_(c.eq(f.pgrid[1, 1], v), c.eq(f.total_weight, v)))


def mean(d):
    v = values(d)
    return sum(v) / len(v)


@harness('S04', quick=[{'case': k, 'confined': cf, 'target': t} for k, cf, t in
                       (('constant', 1, 0), ('constant', 0, 1), ('pairs', 1, 1), ('triples', 1, 0), ('lists', 1, 1), ('mixed', 1, 0), ('pairs', 0, 0))],
         thorough=[{'case': k, 'confined': cf, 'target': t} for k in CASES for cf in (0, 1) for t in (0, 1)], paths=20000)
def deterministic(c):
    """a deterministic run with two wells, all distributions and settings symbolic, confined or not; the fit and compute_capturezone are
    recording stubs; velocity compared at two points with a model of the mean inputs and fitted coefficients; the logged recharge is
    read from the log."""
    a = inputs(c, c.params['case'])
    fits, zones = model_stubs(c)
    a0 = copy.deepcopy(a)
    f = c.must('deterministic run', c.mod(DT).create_deterministic_capturezone, **a)
    c.check('one capture zone', c.true(len(zones) == 1), len(zones))
    c.check('one fit', c.true(len(fits) >= 1), len(fits))
    c.check('inputs unchanged', c.same(a, a0))
    c.check('nothing drawn', c.true(not c.draws), c.draws)
    z, x = zones[0], fits[-1]
    settings(c, a, z)
    c.check('registered in the returned field', c.true(z['pfield'] is f))
    grid(c, a, f)
    c.check('mean properties', c.eqs([x['base'], x['k'], x['p'], x['t']], [a['base'], mean(a['c_dist']), mean(a['p_dist']), mean(a['t_dist'])]))
    c.check('all wells', c.true(len(x['wells']) == len(a['stochastic_wells'])))
    for w, s in zip(x['wells'], a['stochastic_wells']):
        c.check('fixed locations', c.eqs(list(w[:3]), list(s[:3])))
        c.check('mean discharge', c.eq(w[3], mean(s[3])))
    c.check('fit to all observations', c.same([list(o) for o in x['obs']], [list(o) for o in OBS]))
    same_velocity(c, z['velocities'], reference(c, a['confined'], x, x['ev']))
    lines = [m for l, m in c.logs if 'recharge' in m.lower()]
    c.check('recharge is reported', c.true(bool(lines)))
    for m in lines:
        nums = c.numbers(m)
        c.check('recharge is a number', c.true(len(nums) >= 1), m)
        v, slack = nums[-1]
        c.check('recharge is the divergence of the fitted flow', c.eq(v, -2 * (x['ev'][0] + x['ev'][1]), tol=slack), m)


FLOWS = [(1.0, 0.0), (0.0, -1.5), (-1.0, 0.75), (0.75, 1.0), (0.0, 0.0), (-0.375, -0.5), (1.0, 0.0)]


@harness('S05', quick=[{'n': n, 'flows': f, 'move': m, 'paths': p, 'lo': a, 'hi': b} for n, f, m, p, a, b in
                       ((3, 0, 'umbra', 3, 1.0, 1.05), (4, 2, 'duration', 2, 2.75, 3.1), (2, 0, 'target', 3, -40.0, 40.0), (3, 0, 'drift', 2, -0.25, 0.25), (1, 1, 'umbra', 5, 0.5, 0.6), (7, 0, 'duration', 1, 1.8, 2.2), (3, 1, 'back', 2, 2.8, 3.0), (2, 4, 'umbra', 2, 0.1, 0.12), (8, -1, 'umbra', 1, 0.8, 0.82))] + [{'n': 2, 'flows': 1, 'move': 'umbra', 'paths': 4, 'lo': 0.8, 'hi': 0.82, 'dry': 1}],
         thorough=[{'n': n, 'flows': f, 'move': m, 'paths': p, 'lo': a, 'hi': b} for n, f, p in ((3, 0, 3), (4, 2, 2), (7, 0, 4), (5, 1, 7), (20, -1, 1)) for m, a, b in (('umbra', 0.3, 0.6), ('umbra', 1.0, 1.4), ('duration', 0.5, 1.5), ('duration', 2.5, 4.0), ('back', 2.5, 3.5), ('target', -400.0, 400.0), ('drift', -0.25, 0.25))],
         paths=20000, forks=20000)
def fraction(c):
    """stochastic and deterministic runs of 1-8 realizations (one run with all alike, one with a realization near no node, one with an aquifer error at one of the starts), 1-5 paths (7 thorough), real from end to end except for fit_regional_flow, a stub giving each
    realization a uniform flow of its own without variance (still, repeated and opposite flows among them; the well does not pump): the field,
    the traces, the rasterizing and the registering are the real code. One symbolic number: the umbra, the duration, the flow of one
    realization, or the place of the well; the spacing is 1. The tracks are read off the real compute_backtrace."""
    P = c.params
    n, move = P['n'], P['move']
    t = c.real('t', P['lo'], P['hi'], soft=(P['lo'], P['hi']))
    x0, y0 = (c.exact(17.0) + t, c.exact(-8.0) - t) if move == 'target' else (c.exact(17.0), c.exact(-8.0))
    u = t if move == 'umbra' else c.exact(0.77)
    T = t if move == 'duration' else -t if move == 'back' else c.exact(2.5)
    flows = [FLOWS[(P['flows'] + i) % len(FLOWS) if P['flows'] >= 0 else 0] for i in range(n)]
    Model = c.mod(MO).Model
    shape = Model.fit_regional_flow(Model(0.0, 1.0, 0.3, 10.0, []), OBS, 0.0, 0.0)[0].shape
    fits, tracks = [0], []

    def fit(self, obs, xo, yo):
        vx, vy = flows[min(fits[0], n - 1)]
        k = fits[0]
        fits[0] += 1
        self.xo, self.yo = xo, yo
        self.coef = c.numpy.reshape(c.numpy.array([0.0, 0.0, 0.0, 2 * vx, 2 * vy + (t if move == 'drift' and k == 1 else 0), 50.0]), shape)
        return self.coef, c.numpy.zeros((6, 6))
    c.patch_attr(Model, 'fit_regional_flow', fit)
    if P.get('dry'):                    # south of the well there is no water
        velocity = Model.compute_velocity_confined

        def watered(self, x, y):
            if bool(y < y0 - c.exact(0.125)):
                raise c.mod(MO).AquiferError('dry')
            return velocity(self, x, y)
        c.patch_attr(Model, 'compute_velocity_confined', watered)
    trace = c.mod(CZ).compute_backtrace

    def traced(*a, **k):
        v = trace(*a, **k)
        tracks.append((fits[0], [(q[0], q[1]) for q in v]))
        return v
    c.patch_attr(c.mod(CZ), 'compute_backtrace', traced)
    a = dict(target=0, npaths=P['paths'], duration=T, nrealizations=n, base=0.0, c_dist=2.0, p_dist=0.25, t_dist=8.0, stochastic_wells=[(x0, y0, 0.25, 0.0)], observations=list(OBS),
             spacing=c.exact(1), umbra=u, confined=True, tol=math.inf, maxstep=100.0 if move == 'drift' else 2.0)
    if n == 1:
        del a['nrealizations']
        f = c.must('deterministic run', c.mod(DT).create_deterministic_capturezone, **a)
    else:
        f = c.must('stochastic run', c.mod(ST).create_stochastic_capturezone, **a)
    c.check('a fit per realization', c.true(fits[0] == n), fits)
    c.check('the weight is the number of realizations', c.eq(f.total_weight, n))
    c.check('paths of each realization', c.true(all(len([1 for k, v in tracks if k == i + 1]) >= P['paths'] for i in range(n))), [k for k, v in tracks])
    geometry(c, f, 'field')
    p0, q0 = index_of(c, f, x0, y0)
    c.check('no marks are left', c.true(not any(bool(v) for v in f.rgrid.reshape(-1))))
    for p in range(p0 - 2, p0 + f.ncols + 2):
        for q in range(q0 - 2, q0 + f.nrows + 2):
            x, y = x0 + p, y0 + q
            hits = 0
            for i in range(n):
                d2s = [spec_d2(c, g[0], g[1], h[0], h[1], x, y) for k, v in tracks if k == i + 1 for g, h in zip(v[:-1], v[1:])]
                if not c.symbolic:
                    c.assume(all(abs(d - u * u) > 1e-7 for d in d2s))
                hits += 1 if any(d < u * u for d in d2s) else 0
            inside = 0 <= q - q0 < f.nrows and 0 <= p - p0 < f.ncols
            c.check('value = realizations whose paths come close', c.eq(f.pgrid[q - q0, p - p0], hits) if inside else c.true(hits == 0), (p, q, hits))


@harness('E05', quick=[{'case': k, 'n': n, 'confined': 1, 'target': 0} for k, n in (('constant', 1), ('constant', 2), ('pairs', 2), ('mixed', 3))],
         thorough=[{'case': k, 'n': n, 'confined': cf, 'target': t} for k in CASES for n in (1, 2, 4) for cf in (0, 1) for t in (0, 1)], paths=20000)
def recharge_log(c):
    """the log of a stochastic run of 1-3 realizations (same stubs as S03): one line per realization whose last number is minus twice the
    sum of its first two coefficients, the divergence of its regional flow."""
    p = c.params
    a = inputs(c, p['case'])
    a['nrealizations'] = p['n']
    fits, zones = model_stubs(c)
    c.must('stochastic run', c.mod(ST).create_stochastic_capturezone, **a)
    mvn = [d for d in c.draws if d[0] == 'mvn']
    lines = [m for l, m in c.logs if 'realization' in m.lower() and any(ch.isdigit() or ch == '\u27e6' for ch in m)]
    c.check('a line per realization', c.true(len(lines) == p['n'] == len(mvn)), lines)
    for m, d in zip(lines, mvn):
        v, slack = c.numbers(m)[-1]
        c.check('recharge of the realization', c.eq(v, -2 * (d[2][0] + d[2][1]), tol=slack), m)


# ------------------------------------------------------------------------------------------------------------------ E06
def printed(c, what, text, want):
    got = c.numbers(text)
    c.check(what + ': as many numbers', c.true(len(got) == len(want)), text)
    for k, ((g, d), w) in enumerate(zip(got, want)):
        c.check('%s, number %d' % (what, k), c.eq(g, w, tol=d + 1e-9 * abs(float(g)) if not c.symbolic else d or None), text)


@harness('E06', quick=[{'case': k, 'n': n, 'confined': 1, 'target': t} for k, n, t in (('constant', 1, 0), ('pairs', 2, 1), ('triples', 2, 0), ('mixed', 5, 1))],
         thorough=[{'case': k, 'n': n, 'confined': cf, 'target': t} for k in CASES for n in (1, 2, 4) for cf in (0, 1) for t in (0, 1)] + [{'case': 'pairs', 'n': 30, 'confined': 1, 'target': 0}], paths=20000)
def realization_log(c):
    """the log of a stochastic run of 1 to 5 realizations (30 thorough; same stubs as S03): each realization has a line with its number, base, conductivity,
    porosity, thickness and recharge and a line each with the fitted and the drawn coefficients, all as used by that realization."""
    p = c.params
    a = inputs(c, p['case'])
    a['nrealizations'] = p['n']
    fits, zones = model_stubs(c)
    c.must('stochastic run', c.mod(ST).create_stochastic_capturezone, **a)
    mvn = [d for d in c.draws if d[0] == 'mvn']
    lines = [t for l, m in c.logs for t in m.split('\n') if t.strip()]
    at = [i for i, m in enumerate(lines) if 'realization' in m.lower() and c.numbers(m)]
    c.check('a line per realization', c.true(len(at) == p['n'] == len(mvn) == len(fits) == len(zones)), lines)
    for i, (k, f, d) in enumerate(zip(at, fits, mvn)):
        end = at[i + 1] if i + 1 < len(at) else len(lines)
        block = lines[k + 1:end]
        printed(c, 'realization', lines[k], [i, f['base'], f['k'], f['p'], f['t'], -2 * (d[2][0] + d[2][1])])
        for what, v in (('ev', f['ev']), ('rng', d[2])):
            got = [m for m in block if m.partition(':')[0].split()[-1:] == [what]]
            c.check('%s coefficients are logged' % what, c.true(len(got) == 1), block)
            printed(c, '%s coefficients' % what, got[0].partition(':')[2], list(v))
        # the model traced in the realization is the one logged
        same_velocity(c, zones[i]['velocities'], reference(c, a['confined'], f, d[2]))


@harness('E06', quick=[{'case': k, 'confined': 1, 'target': t} for k, t in (('constant', 0), ('pairs', 1), ('triples', 0), ('mixed', 1))],
         thorough=[{'case': k, 'confined': cf, 'target': t} for k in CASES for cf in (0, 1) for t in (0, 1)], paths=20000)
def deterministic_log(c):
    """the log of a deterministic run (same stubs as S04): base, mean conductivity and porosity, recharge and the coefficients A to F of the
    fitted model, each under its name."""
    a = inputs(c, c.params['case'])
    fits, zones = model_stubs(c)
    c.must('deterministic run', c.mod(DT).create_deterministic_capturezone, **a)
    lines = [t for l, m in c.logs for t in m.split('\n') if t.strip()]
    x = fits[-1]
    want = dict(base=a['base'], conductivity=mean(a['c_dist']), porosity=mean(a['p_dist']), recharge=-2 * (x['ev'][0] + x['ev'][1]))
    want.update(zip('ABCDEF', x['ev']))
    for n, v in want.items():
        got = [t.partition('=')[2] for t in lines if t.partition('=')[0].strip() == n]
        c.check('%s is logged' % n, c.true(len(got) == 1), got)
        printed(c, n, got[0], [v])
