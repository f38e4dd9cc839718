"""The entry point, the archive and the driver (E01-E08)."""
import copy
import logging
import types

from vlib.harness_api import harness
from harness.run_h import OBS
from harness.util_h import table

ON, ST, DT, AR, UT, PF = 'oneka.oneka', 'oneka.stochastic', 'oneka.deterministic', 'oneka.archive', 'oneka.utilities', 'oneka.probabilityfield'
MO, CZ, VI = 'oneka.model', 'oneka.capturezone', 'oneka.visualize'
NAMES = ['projectname', 'runtime', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist', 'stochastic_wells', 'observations',
         'buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep']
OPTIONAL = NAMES[12:]


def valid(nreal=5):
    return dict(projectname='Test', runtime='Sat Jul 25 12:00:00 2020', target=1, npaths=7, duration=400.0, nrealizations=nreal, base=-3.0,
                c_dist=(1.0, 2.0, 4.0), p_dist=(0.2, 0.3), t_dist=12.0, stochastic_wells=[(1.0, 2.0, 0.25, (100.0, 200.0)), (60.0, -40.0, 0.5, 300.0)],
                observations=[list(o) if i % 2 else tuple(o) for i, o in enumerate(OBS)], buffer=100.0, spacing=10.0, umbra=11.0, smooth=1.5, confined=False, tol=0.75, maxstep=9.0)


def big(nreal=5):
    """a valid run of six wells and fourteen observations"""
    a = valid(nreal)
    a['stochastic_wells'] += [(-35.0, 15.0 * i, 0.25 * i, [(-20.0, 5.0), 0.0, (1.0, 2.0, 3.0), 75.0][i % 4]) for i in range(1, 5)]
    a['observations'] += [(400.0 + 20 * i, -150.0 + 35 * i, 61.0 + i / 4, 1.0) for i in range(6)]
    return a


def huge(nreal=5):
    """a valid run of sixty wells and 290 observations"""
    a = valid(nreal)
    a['stochastic_wells'] += [(-2000.0 - 30 * i, 15.0 * i, 0.25 + i / 64, [(-20.0, 5.0), 0.0, (1.0, 2.0, 3.0), 75.0][i % 4]) for i in range(58)]
    a['observations'] += [(4000.0 + 20 * i, -150.0 + 35 * (i % 17), 61.0 + i / 64, 1.0) for i in range(282)]
    return a


def sample_field(c, d=10.0):
    f = c.mod(PF).ProbabilityField(d, d, 60.0, -40.0)
    for n, v in enumerate((0.0, 1.0, 0.0, 2.0, 4.0, 3.0, 0.0, 1.0, 0.0)):
        f.pgrid[n // 3, n % 3] = v
    f.total_weight = 4.0
    return f


def zones(c, f):
    st = c.record(ST, 'create_stochastic_capturezone', f)
    de = c.record(DT, 'create_deterministic_capturezone', f)
    return st, de


# ------------------------------------------------------------------------------------------------------------------ E01
def positive(c, v):
    return c.lt(0, v)


def near(c, a, b, tol):
    """equal up to the rounding of a printed number"""
    if isinstance(tol, (int, float)) and tol == 0:
        return c.eq(a, b)
    return c.and_(c.le(a - b, tol), c.le(b - a, tol))


# argument -> (accepts a real, accepts an int); True: whole domain, None: unspecified
NUMBER = {'duration': lambda c, v: c.not_(c.eq(v, 0)), 'base': lambda c, v: c.true(True), 'spacing': positive, 'umbra': positive, 'smooth': lambda c, v: c.le(0, v),
          'tol': positive, 'maxstep': positive}


def outcome(c, a, expect):
    """runs the entry point; expect: condition for acceptance (None: either)"""
    f = sample_field(c)
    st, de = zones(c, f)
    before = set(c.files())
    _, e = c.call(c.mod(ON).oneka, **a)
    new = [x for x in c.files() if x not in before]
    if e is None:
        c.check('a run is refused unless all arguments are valid', expect)
        c.check('an accepted run computes once', c.true(len(st) + len(de) == 1))
        c.check('an accepted run is archived', c.true(len(new) == 1), new)
    else:
        c.check('a run with valid arguments is accepted', c.not_(expect), repr(e))
        c.check('a refused run computes nothing', c.true(not st and not de))
        c.check('a refused run plots nothing', c.true(not c.plots), c.plots[:3])
        c.check('a refused run archives nothing', c.true(not new), new)


def numeric(c, kind):
    return c.real('v', soft=(-20, 300)) if kind == 'real' else c.integer('v', -3, 12)


@harness('E01', quick=[{'arg': a, 'kind': k, 'nreal': n} for a in NUMBER for k in ('real', 'int') for n in (1, 5)] + [{'arg': 'buffer', 'kind': k, 'nreal': 5} for k in ('real', 'int')])
def numbers(c):
    """one of duration, base, buffer, spacing, umbra, smooth, tol, maxstep an arbitrary real or an integer from -3 to 12, the others valid, in
    stochastic and deterministic runs: accepted exactly in its domain.  The computation of the capture zone is a recording stub; filtering,
    logging, plotting (onto a recorder) and archiving (onto an in-memory store, scratch files in real runs) are the real code."""
    p = c.params
    a = valid(p['nreal'])
    v = a[p['arg']] = numeric(c, p['kind'])
    if p['arg'] == 'buffer':
        if v > 0:
            kept = c.must('filter', c.mod(UT).filter_obs, copy.deepcopy(a['observations']), copy.deepcopy(a['stochastic_wells']), v)
            outcome(c, a, c.true(len(kept) > 6))
        else:
            outcome(c, a, c.true(False))
    else:
        outcome(c, a, NUMBER[p['arg']](c, v))


@harness('E01', quick=[{'arg': a, 'kind': k} for a in ('target', 'npaths') for k in ('real', 'int')])
def integers(c):
    """target or npaths an arbitrary real (refused) or an integer from -3 to 12."""
    p = c.params
    a = valid()
    v = a[p['arg']] = numeric(c, p['kind'])
    if p['kind'] == 'real':
        outcome(c, a, c.true(False))
    elif p['arg'] == 'npaths':
        outcome(c, a, positive(c, v))
    else:
        for i in range(-3, 13):
            if v == i:
                a['target'] = i
        outcome(c, a, c.true(0 <= a['target'] < 2))


@harness('E01', quick=[{'arg': a, 'n': n} for a in ('c_dist', 'p_dist', 't_dist', 'well') for n in (0, 2, 3)] + [{'arg': 'well', 'n': n, 'row': r} for n, r in ((2, 1), (3, 4), (2, 5))])
def distributions(c):
    """conductivity, porosity, thickness or a discharge an arbitrary constant, pair or triple: refused when decreasing, negative (not the
    discharge) or above one (porosity); accepted when ordered and strictly inside; on the boundary either."""
    p = c.params
    a = valid()
    v = [c.real('v%d' % i, soft=(-1, 2)) for i in range(max(p['n'], 1))]
    d = tuple(v) if p['n'] else v[0]
    ordered = c.all([c.le(x, y) for x, y in zip(v[:-1], v[1:])])
    lo = c.true(True) if p['arg'] == 'well' else c.le(0, v[0])
    hi = c.le(v[-1], 1) if p['arg'] == 'p_dist' else c.true(True)
    if p['arg'] != 'well':
        c.assume(v[0] != 0)
        c.assume(v[-1] != 1)
        a[p['arg']] = d
    else:
        r = p.get('row', 0)
        if r > 1:
            a = big()
        a['stochastic_wells'][r] = a['stochastic_wells'][r][:3] + (d,)
    outcome(c, a, c.and_(ordered, c.and_(lo, hi)))


@harness('E01', quick=[{'arg': a, 'kind': k, 'row': r, 'nreal': 5} for a, rows in (('xw', 2), ('yw', 2), ('rw', 2), ('xo', 8), ('yo', 8), ('zo', 8), ('so', 8)) for k, r in (('real', rows - 1), ('int', 0))] +
         [{'arg': a, 'kind': 'real', 'row': 3, 'nreal': 1} for a in ('zo', 'so')] +
         [{'arg': a, 'kind': 'real', 'row': r, 'nreal': n, 'big': 1} for a, r, n in (('rw', 3, 5), ('rw', 5, 1), ('xw', 4, 5), ('so', 13, 5), ('so', 9, 1), ('zo', 10, 5))] + [{'arg': a, 'kind': 'real', 'row': r, 'nreal': n, 'big': 2} for a, r, n in (('so', 287, 1), ('rw', 57, 5))])
def rows(c):
    """one entry of one well or one observation (of 2 and 8, of 6 and 14, or of 60 and 290) an arbitrary real or an integer from -3 to 12: radii and deviations must be positive."""
    p = c.params
    a = (valid, big, huge)[p.get('big', 0)](p['nreal'])
    a['buffer'] = 0.5
    v = numeric(c, p['kind'])
    tab = a['stochastic_wells' if p['arg'][1] == 'w' else 'observations']
    r = list(tab[p['row']])
    r['xyrs'.find(p['arg'][0]) if p['arg'][0] in 'xy' else {'r': 2, 'z': 2, 's': 3}[p['arg'][0]]] = v
    if p['arg'][0] in 'xy':
        # away from the wells and from the other observations (the filter is U01 and U02)
        for q in (a['observations'] if p['arg'][1] == 'w' else a['stochastic_wells'] + a['observations']):
            k = 'xy'.index(p['arg'][0])
            if q is not tab[p['row']]:
                c.assume((v - q[k]) ** 2 > 4)
    tab[p['row']] = tuple(r)
    outcome(c, a, positive(c, v) if p['arg'][0] in 'rs' else c.true(True))


@harness('E01', quick=[{'nreal': n, 'row': r, 'ob': o} for n, r, o in ((5, 0, 0), (1, 1, 5))] + [{'nreal': 5, 'row': 3, 'ob': 11, 'big': 1}], paths=20000)
def together(c):
    """duration, base, spacing, umbra, smooth, tol, maxstep, one whole well and the deviation of one observation arbitrary reals at once, the others valid:
    accepted exactly when each is in its domain."""
    p = c.params
    a = big(p['nreal']) if p.get('big') else valid(p['nreal'])
    a['buffer'] = 0.5
    for n in NUMBER:
        a[n] = c.real(n, soft=(-20, 300))
    w = [c.real('w' + k, soft=(-900, 900)) for k in 'xyrq']
    for q in a['observations']:
        c.assume(c.lt(4, w[0] - q[0]) if q[0] < 0 else c.lt(4, q[0] - w[0]))
    o = tuple(a['observations'][p['ob']][:3]) + (c.real('s', soft=(-20, 300)),)
    a['stochastic_wells'][p['row']], a['observations'][p['ob']] = tuple(w), o
    outcome(c, a, c.all([NUMBER[n](c, a[n]) for n in NUMBER] + [positive(c, w[2]), positive(c, o[3])]))


WRONG = [(a, w) for a in NAMES for w in ('none', 'text', 'list', 'object') if (a, w) not in (('projectname', 'text'), ('runtime', 'text'))] + \
        [('projectname', 'number'), ('runtime', 'number'), ('confined', 'number'), ('confined', 'int'), ('stochastic_wells', 'dict'), ('observations', 'dict')]


def wrong(c, w):
    return {'none': lambda: None, 'text': lambda: '5', 'list': lambda: [], 'object': object, 'dict': dict, 'number': lambda: c.real('v'), 'int': lambda: c.integer('v', -3, 12)}[w]()


@harness('E01', quick=[{'what': w} for w in ('projectname', 'runtime', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'dists', 'tables', 'optional', 'confined')] + [{'what': 'cells'}])
def types_(c):
    """every argument, and every entry of a well and of an observation, replaced by None, text, an empty list or an object; the names and
    the confined flag also by a number, the tables by a dictionary: refused."""
    w = c.params['what']
    a = valid()
    if w == 'cells':
        tab, row, k = [(t, r, k) for t, r in (('stochastic_wells', 1), ('observations', 5), ('stochastic_wells', 4), ('observations', 12)) for k in range(4)][c.choice('cell', 16)]
        if row in (4, 12):
            a = big()
        kind = ('none', 'text', 'list')[c.choice('kind', 3)]
        r = list(a[tab][row])
        r[k] = wrong(c, kind)
        a[tab][row] = tuple(r)
    else:
        group = {'dists': ('c_dist', 'p_dist', 't_dist'), 'tables': ('stochastic_wells', 'observations'), 'optional': ('buffer', 'spacing', 'umbra', 'smooth', 'tol', 'maxstep')}.get(w, (w,))
        opts = [x for x in WRONG if x[0] in group]
        n, kind = opts[c.choice('option', len(opts))]
        a[n] = wrong(c, kind)
    outcome(c, a, c.true(False))


@harness('E01', quick=[{'what': w} for w in ('short rows', 'few', 'filtered', 'defaults', 'booleans')])
def shapes(c):
    """rows of 3 or 5 entries, no wells, 0 to 6 observations, fewer than seven observations left by the filter: refused; any subset of the
    optional arguments left out, either value of the confined flag: accepted."""
    w = c.params['what']
    a = valid()
    ok = False
    if w == 'short rows':
        t = ('stochastic_wells', 'observations')[c.choice('table', 2)]
        if c.flag('big'):
            a = big()
        i = (0, 1, len(a[t]) - 1)[c.choice('row', 3)]
        r = tuple(a[t][i])
        a[t][i] = r[:3] if c.flag('short') else r + (1.0,)
    elif w == 'few':
        n = c.choice('count', 8)
        if n == 7:
            a['stochastic_wells'] = []
        else:
            a['observations'] = a['observations'][:n]
    elif w == 'filtered':
        # k distinct locations, the rest repeated or next to a well
        k = 5 + c.choice('distinct', 4)
        near = c.flag('near')
        rest = (4, 9, 60)[c.choice('rest', 3)]
        a['observations'] = [tuple(o) for o in OBS[:k]] + [(1.0 + i if near else OBS[i % k][0], 2.0 if near else OBS[i % k][1], 60.0, 1.0) for i in range(rest)]
        ok = k > 6
    elif w == 'defaults':
        for n in OPTIONAL:
            if c.flag('without ' + n):
                del a[n]
        a['nrealizations'] = 1 + c.choice('stochastic', 2)
        ok = True
    else:
        a['confined'] = c.flag('value')
        ok = True
    outcome(c, a, c.true(ok))


# ------------------------------------------------------------------------------------------------------------------ E02, E03
def settings(c, nreal):
    a = valid(nreal)
    a.update(target=c.choice('target', 2), npaths=c.integer('npaths', 1, 500), duration=c.real('duration', soft=(10, 900)), base=c.real('base', soft=(-9, 9)),
             c_dist=c.real('k', gt=0, soft=(1, 40)), p_dist=(c.real('p', 0.05, 0.4), 0.5), t_dist=c.real('t', gt=0, soft=(1, 40)),
             spacing=c.real('spacing', gt=0, soft=(1, 40)), umbra=c.real('umbra', gt=0, soft=(1, 40)), smooth=c.real('smooth', 0, soft=(0.5, 3)),
             tol=c.real('tol', gt=0, soft=(0.1, 3)), maxstep=c.real('maxstep', gt=0, soft=(1, 40)), confined=c.flag('confined'), buffer=c.real('buffer', gt=0, soft=(20, 280)))
    c.assume(a['duration'] != 0)
    a['stochastic_wells'] = [(1.0, 2.0, c.real('r0', gt=0, soft=(0.1, 1)), (c.real('q0', -900, 900), 1000.0)), (60.0, -40.0, c.real('r1', gt=0, soft=(0.1, 1)), c.real('q1', -900, 900))]
    # values apart from one another keep the summary table (U03) from branching
    a['observations'] = [(o[0], o[1], 60.0 + 7 * i, 5.0 + i) for i, o in enumerate(OBS)]
    a['observations'][2] = OBS[2][:2] + (c.real('z2', 73.5, 74.5), c.real('s2', 1.0, 1.5))
    a['observations'][5] = OBS[5][:2] + (c.real('z5', 93, 98), c.real('s5', 9.75, 10.5))
    a['observations'].append(OBS[2][:2] + (c.real('zd', 73.5, 74.5), c.real('sd', 1.0, 1.5)))
    return a


def archived(c):
    """everything the archives written by the run hold"""
    out = []
    for n in c.files():
        if 'oneka' in n.lower():
            out.append(c.must('load', c.mod(AR).load_oneka, n))
    return out


def get(rec, n):
    return rec[n] if isinstance(rec, dict) else getattr(rec, n)


def same_field(c, f, g):
    return c.and_(c.eqs([getattr(f, k) for k in ('deltax', 'deltay', 'xmin', 'xmax', 'ymin', 'ymax', 'total_weight', 'nrows', 'ncols')],
                        [getattr(g, k) for k in ('deltax', 'deltay', 'xmin', 'xmax', 'ymin', 'ymax', 'total_weight', 'nrows', 'ncols')]), c.eqarr(f.pgrid, g.pgrid))


def same_record(c, rec, a, f):
    for n in NAMES:
        try:
            v = get(rec, n)
        except (KeyError, AttributeError):
            c.fail('archived under its own name', n)
        c.check('archived %s' % n, c.same(v, a[n]), v)
    try:
        g = get(rec, 'pfield')
    except (KeyError, AttributeError):
        c.fail('archived under its own name', 'pfield')
    c.check('archived field', same_field(c, g, f))


@harness('E02', quick=[{'n': n} for n in (1, 2, 7, 1000)], thorough=[{'n': n} for n in (1, 2, 3, 7, 1000, 100000)])
def routing(c):
    """runs of 1, 2, 7 and 1000 realizations; all numeric settings, radii, discharges and the heads and deviations of three observations symbolic, both values of the
    confined flag, both targets, nine observations (one duplicated location) at fixed places; the two capture-zone functions are recording
    stubs (S03, S04), the plotting library a recorder, archives go to an in-memory store (scratch files in real runs); the filter and
    the archive are the real code."""
    n = c.params['n']
    a = settings(c, n)
    f = sample_field(c, a['spacing'])
    st, de = zones(c, f)
    a0 = copy.deepcopy(a)
    kept = c.must('filter', c.mod(UT).filter_obs, copy.deepcopy(a['observations']), copy.deepcopy(a['stochastic_wells']), a['buffer'])
    r, e = c.call(c.mod(ON).oneka, **a)
    if len(kept) < 7:
        c.check('refused', c.true(e is not None))
        return
    c.check('the run succeeds', c.true(e is None), repr(e))
    c.check('stochastic exactly when more than one realization', c.true((len(st), len(de)) == ((1, 0) if n > 1 else (0, 1))), (len(st), len(de)))
    z = (st + de)[0]
    for k in NAMES:
        if k in z and k != 'observations':
            c.check('%s reaches the computation' % k, c.same(z[k], a0[k]), z[k])
    c.check('every setting of the computation is given', c.true(set(NAMES[2:5] + NAMES[6:12] + ['spacing', 'umbra', 'confined', 'tol', 'maxstep']) <= set(z)))
    c.check('filtered observations reach the computation', c.same([list(o) for o in z['observations']], [list(o) for o in kept]))
    c.check('the field is returned', c.true(r is f), repr(r)[:80])
    c.check('inputs unchanged', c.same(a, a0))
    got = archived(c)
    c.check('archived once', c.true(len(got) == 1), len(got))
    same_record(c, got[0], a0, f)
    if n > 1:
        if not c.smooth_calls:
            c.check('smoothing width reaches the map', c.eq(a0['smooth'], 0))
        else:
            c.check('smoothing width reaches the map', c.and_(c.true(len(c.smooth_calls) == 1), c.eq(c.smooth_calls[0][1], a0['smooth'])))
            c.check('map of the computed field', c.eqarr(c.smooth_calls[0][0], f.pgrid / 4.0))
        start = [i for i, (l, m) in enumerate(c.logs) if 'Pr(capture)' in m]
        tab = [x for x in (c.numbers(m) for l, m in c.logs[start[0]:]) if len(x) == 3] if start else []
        c.check('a table is logged', c.true(len(tab) == 19), len(tab))
        for row, cells in ((tab[0], 6), (tab[-1], 2)):
            c.check('the spacing reaches the areas', near(c, row[1][0], cells * a0['spacing'] * a0['spacing'], row[1][1]), row)
    pts = [q for q in c.plots if q[0] in ('plot', 'scatter')]
    flat = [(list(q[1][0]) if hasattr(q[1][0], '__len__') else [q[1][0]]) for q in pts if len(q[1]) >= 2]
    c.check('the retained observations are marked', c.any([c.eqs(x, [o[0] for o in kept]) for x in flat]))
    c.check('the target is marked', c.any([c.eqs(x, [a0['stochastic_wells'][a0['target']][0]]) for x in flat]))


@harness('E03', quick=[{'n': n, 'style': s} for n in (1, 7) for s in ('positional', 'keywords')])
def round_trip(c):
    """all settings symbolic (numbers, flags, tables; text arbitrary constants), field of 3x3 nodes with symbolic geometry and contents;
    archives go to an in-memory store (scratch files, real bz2 and pickle in real runs)."""
    a = settings(c, c.params['n'])
    a['c_dist'] = (c.real('k1'), c.real('k2'), c.real('k3'))
    a['observations'] = [list(o) if i % 2 else o for i, o in enumerate(a['observations'])]
    a['stochastic_wells'][1] = list(a['stochastic_wells'][1])
    f = c.mod(PF).ProbabilityField(c.real('dx', gt=0), c.real('dy', gt=0), c.real('fx'), c.real('fy'))
    for i in range(9):
        f.pgrid[i // 3, i % 3] = c.real('g%d' % i)
    f.total_weight = c.real('T')
    a0, f0 = copy.deepcopy(a), copy.deepcopy(f)
    dump = c.mod(AR).dump_oneka
    if c.params['style'] == 'positional':
        c.must('dump', dump, *[a[k] for k in NAMES], f)
    else:
        c.must('dump', dump, pfield=f, **a)
    got = archived(c)
    c.check('one archive', c.true(len(got) == 1), len(got))
    c.check('inputs unchanged', c.and_(c.same(a, a0), same_field(c, f, f0)))
    same_record(c, got[0], a0, f0)


# ------------------------------------------------------------------------------------------------------------------ E04
SETTINGS = {'PROJECTNAME': 'projectname', 'TARGET': 'target', 'NPATHS': 'npaths', 'DURATION': 'duration', 'NREALIZATIONS': 'nrealizations', 'BASE': 'base', 'C_DIST': 'c_dist', 'P_DIST': 'p_dist',
            'T_DIST': 't_dist', 'WELLS': 'stochastic_wells', 'OBSERVATIONS': 'observations', 'BUFFER': 'buffer', 'SPACING': 'spacing', 'UMBRA': 'umbra', 'SMOOTH': 'smooth', 'CONFINED': 'confined',
            'TOL': 'tol', 'MAXSTEP': 'maxstep'}


def driver(c):
    c.patch_attr(logging, 'FileHandler', lambda *a, **k: logging.NullHandler())
    return c.record(ON, 'oneka', None), c.mod('runme')


@harness('E04', quick=[{'module': m} for m in ('data.verif_module', 'verif_module')])
def data_module(c):
    """a data module whose numeric settings are symbolic and whose other settings are distinct constants, in and outside the data
    package; the entry point is a recording stub, the log file a null handler."""
    m = types.ModuleType(c.params['module'])
    v = {}
    for k in SETTINGS:
        v[k] = {'PROJECTNAME': lambda: 'Project', 'CONFINED': lambda: c.flag('confined'), 'WELLS': lambda: [(1.0, 2.0, 0.5, c.real('q'))], 'OBSERVATIONS': lambda: [(1.0, 2.0, c.real('z'), 1.0)],
                'C_DIST': lambda: (c.real('k1'), c.real('k2')), 'TARGET': lambda: c.integer('target', 0, 9), 'NPATHS': lambda: c.integer('npaths', 1, 99),
                'NREALIZATIONS': lambda: c.integer('nreal', 1, 99)}.get(k, lambda: c.real(k.lower()))()
        setattr(m, k, v[k])
    c.virtual_modules[c.params['module']] = m
    if c.params['module'].startswith('data.'):
        c.mod('data')
    got, run = driver(c)
    c.must('main', run.main, c.params['module'])
    c.check('one run', c.true(len(got) == 1), len(got))
    for k, n in SETTINGS.items():
        c.check('%s is passed as %s' % (k, n), c.same(got[0][n], v[k]), got[0][n])
    c.check('run time is text', c.true(isinstance(got[0]['runtime'], str) and bool(got[0]['runtime'])))


@harness('E04', quick=[{'module': m} for m in ('basic', 'basic_deterministic', 'barnesville', 'carlos', 'long_prairie', 'paynesville', 'perham')], need_validation=True)
def shipped_module(c):
    """the shipped data modules: the driver passes their settings on, and the entry point (capture-zone computation, plots and archive
    stubbed as in E02) accepts them, for an arbitrary spacing."""
    name = 'data.' + c.params['module']
    m = c.mod(name)
    s = c.real('spacing', gt=0, soft=(1, 40))
    c.patch_attr(m, 'SPACING', s)
    orig = c.mod(ON).oneka
    got, run = driver(c)
    c.must('main', run.main, name)
    c.check('one run', c.true(len(got) == 1), len(got))
    for k, n in SETTINGS.items():
        c.check('%s is passed as %s' % (k, n), c.same(got[0][n], getattr(m, k)), got[0][n])
    f = sample_field(c)
    st, de = zones(c, f)
    c.must('accepted', orig, **got[0])
    c.check('computed once', c.true(len(st) + len(de) == 1))
    c.check('spacing of the run', c.eq((st + de)[0]['spacing'], s))


@harness('E04', quick=[{'module': m} for m in ('data.nosuch', 'nosuch', 'data.basic.nosuch', 'nosuch.basic')])
def unknown_module(c):
    """unknown module names: reported on standard output, nothing is run."""
    got, run = driver(c)
    x = c.real('x')
    c.must('main', run.main, c.params['module'])
    c.check('nothing is run', c.true(not got))
    c.check('reported by name', c.true(c.params['module'] in c.captured()), c.captured())
    c.check('no files', c.true(not c.files()), c.files())


# ------------------------------------------------------------------------------------------------------------------ E05
@harness('E05', quick=[{'others': o, 'n': 2} for o in ('0', '0T', '0hh', '00qa')] + [{'others': '0qtt0T', 'n': 1}] + [{'ties': t, 'n': 1} for t in (20, 100, 40)], thorough=[{'others': o, 'n': n} for o in ('0', '0T', '0hh', '00qa', '000Thqab') for n in (2, 3)] + [{'others': '0qtt0T', 'n': n} for n in (1, 2)] + [{'ties': t, 'n': n} for t in (10, 20, 30, 40, 50, 60, 100, 200, 500, 1000) for n in (1, 2)], paths=60000, cost=5)
def area_table(c):
    """stochastic runs whose field has 2 (3 thorough) symbolic node values and up to 8 fixed or repeated ones, at least one of them zero
    (the rim of a field is never visited: F04); total weight and spacing symbolic (total weight 20, 40 or 100 and whole values
    beside one symbolic one, so that probabilities equal levels exactly, in some cases); the logged table is read back from the log."""
    p = c.params
    a = valid(5)
    a['smooth'] = 0.5
    s = a['spacing'] = c.real('spacing', gt=0, soft=(5, 50))
    ties = p.get('ties')
    T = c.exact(ties) if ties else c.real('T', gt=0, soft=(1, 9))
    f = c.mod(PF).ProbabilityField(s, s, 60.0, -40.0)
    P = []
    for i in range(p['n']):
        v = c.real('p%d' % i, lo=0, soft=(0, 9))
        c.assume(v <= T)
        P.append(v)
    if ties:
        P += [c.exact(int(ties * k // 20)) for k in (0, 8, 11, 3, 16, 10, 9, 20)[:9 - p['n']]]
    fixed = p.get('others', '') + '0' * 9
    for k in fixed[:9 - len(P)]:
        P.append({'0': lambda: 0.0, 'T': lambda: T, 'h': lambda: T * 17 / 32, 'q': lambda: T * 9 / 32, 't': lambda: T / 2, 'a': lambda: P[0], 'b': lambda: P[1]}[k]())
    for i, v in enumerate(P):
        f.pgrid[i // 3, i % 3] = v
    f.total_weight = T
    zones(c, f)
    c.must('run', c.mod(ON).oneka, **a)
    start = [i for i, (l, m) in enumerate(c.logs) if 'Pr(capture)' in m]
    c.check('a table is logged', c.true(bool(start)))
    tab = []
    for l, m in c.logs[start[0] + 1:]:
        x = c.numbers(m)
        if len(x) == 3:
            tab.append(x)
    c.check('19 levels', c.true(len(tab) == 19), len(tab))
    for k, ((v, dv), (area, da), (acres, dc)) in enumerate(tab):
        level = c.exact('0.05') * (k + 1) if c.symbolic else 0.05 * (k + 1)
        tie = [not c.symbolic and (x == T / 2 if k == 9 else bool(ties) and x == int(x) and 20 * x == (k + 1) * ties) for x in P]
        if not c.symbolic and any(abs(x - level * T) < 1e-9 * T and not u for x, u in zip(P, tie)):
            c.cut('a probability equal to a level up to rounding')
        c.check('not above the level', c.le(v - dv, level))
        c.check('a probability of the field', c.any([near(c, v * T, x, dv * T if dv else 0) for x in P]))
        # nodes above the level come first in the impact curve; the pair is the next one
        above = [bool(x > level * T) and not u for x, u in zip(P, tie)]
        c.check('the largest one not above the level', c.all([c.le(x, v * T + (dv * T if dv else 0)) for x, u in zip(P, above) if not u]))
        c.check('area paired by the impact curve', near(c, area, (sum(above) + 1) * s * s, da))
        c.check('the same area in acres', near(c, acres * c.exact('4046.86'), area, dc * 4047 + da))


@harness('E05', quick=[{'kinds': k} for k in ('ssss', 's0sT0shh', '0')])
def area_log(c):
    """deterministic runs whose field has up to 4 symbolic node values (zero or positive); total weight and spacing symbolic; the log after
    the run holds the area of the visited nodes' cells and the same area in acres."""
    a = valid(1)
    s = a['spacing'] = c.real('spacing', gt=0, soft=(5, 50))
    f = c.mod(PF).ProbabilityField(s, s, 60.0, -40.0)
    f.total_weight = T = c.real('T', gt=0, soft=(1, 9))
    n = 0
    for i, k in enumerate(c.params['kinds']):
        v = c.real('p%d' % i, lo=0, soft=(0, 9)) if k == 's' else {'0': 0.0, 'T': T, 'h': T / 2}[k]
        f.pgrid[i // 3, i % 3] = v
        n += bool(v > 0)
    zones(c, f)
    c.must('run', c.mod(ON).oneka, **a)
    lines = [m for l, m in c.logs]
    start = [i for i, m in enumerate(lines) if 'capture zone area' in m.lower()]
    c.check('the area is logged', c.true(bool(start)))
    got = [q for m in lines[start[0]:] for q in c.numbers(m.replace('m^2', ''))]
    c.check('area', c.any([near(c, v, n * s * s, dv) for v, dv in got]))
    c.check('area in acres', c.any([near(c, v * c.exact('4046.86'), n * s * s, dv * 4047) for v, dv in got]))


# ------------------------------------------------------------------------------------------------------------------ E06
def flat(v):
    if isinstance(v, (tuple, list)):
        return [y for x in v for y in flat(x)]
    return [v]


def lines_of(logs):
    return [t for l, m in logs for t in m.split('\n') if t.strip()]


def same_numbers(c, what, text, want):
    got = c.numbers(text)
    c.check(what + ': as many numbers', c.true(len(got) == len(want)), text)
    c.check(what, c.all([near(c, g, w, d) for (g, d), w in zip(got, want)]), text)


@harness('E06', quick=[{'n': n} for n in (1, 2, 7)] + [{'n': n, 'rows': 'many'} for n in (1, 5)], thorough=[{'n': n, 'rows': r} for n in (1, 2, 3, 7, 1000) for r in ('few', 'many')])
def run_log(c):
    """the log of runs of 1 to 7 realizations (1000 thorough), with the symbolic settings of E02 and the capture-zone functions stubbed; also
    with 60 wells and 290 observations. Read up to the moment the computation starts: each setting under its name, the wells and the
    observations as given, the numbered list of the retained observations and their statistics."""
    n = c.params['n']
    a = settings(c, n)
    if c.params.get('rows') == 'many':
        more = huge(n)
        a['stochastic_wells'] += more['stochastic_wells'][2:]
        a['observations'] += more['observations'][8:]
        a['buffer'] = 45.0
    a0 = copy.deepcopy(a)
    f = sample_field(c)
    seen = []

    def zone(d):
        seen.append(len(c.logs))
        return f
    c.record(ST, 'create_stochastic_capturezone', zone)
    c.record(DT, 'create_deterministic_capturezone', zone)
    kept = c.must('filter', c.mod(UT).filter_obs, copy.deepcopy(a['observations']), copy.deepcopy(a['stochastic_wells']), a['buffer'])
    start = len(c.logs)
    r, e = c.call(c.mod(ON).oneka, **a)
    if len(kept) < 7:
        c.cut('refused')
    c.check('the run succeeds', c.true(e is None and len(seen) == 1), repr(e))
    text = lines_of(c.logs[start:seen[0]])
    title = {'projectname': 'project name', 'runtime': 'run time'}
    for k in NAMES:
        if k in ('stochastic_wells', 'observations'):
            continue
        got = [t.partition('=')[2] for t in text if t.partition('=')[0].strip() == title.get(k, k)]
        c.check('%s is logged' % k, c.true(len(got) == 1), got)
        if k in ('projectname', 'runtime', 'confined'):
            c.check('%s in the log' % k, c.true(got[0].strip() == str(bool(a0[k]) if k == 'confined' else a0[k])), got)
        else:
            same_numbers(c, k + ' in the log', got[0], flat(a0[k]))
        if k == 'nrealizations':
            c.check('kind of the run in the log', c.true(('STOCHASTIC' in got[0].upper(), 'DETERMINISTIC' in got[0].upper()) == (n > 1, n <= 1)), got)
    for k in ('stochastic_wells', 'observations'):
        at = [i for i, t in enumerate(text) if t.partition(':')[0].strip() == k]
        c.check('%s are logged' % k, c.true(len(at) == 1), at)
        rows = a0[k]
        same_numbers(c, 'number of ' + k, text[at[0]].partition(':')[2], [len(rows)])
        c.check('a line per row of ' + k, c.true(len(text) >= at[0] + 1 + len(rows)))
        for i, w in enumerate(rows):
            same_numbers(c, 'row of ' + k, text[at[0] + 1 + i], flat(w))
    at = [i for i, t in enumerate(text) if t.partition(':')[0].strip() == 'active observations']
    c.check('active observations are logged', c.true(len(at) == 1), at)
    same_numbers(c, 'number of active observations', text[at[0]].partition(':')[2], [len(kept)])
    c.check('a line per active observation', c.true(len(text) >= at[0] + 1 + len(kept)))
    for i, o in enumerate(kept):
        same_numbers(c, 'active observation', text[at[0] + 1 + i], [i] + flat(o))
    rows, head = table(c, '\n'.join(text), ['Easting', 'Northing', 'Head', 'Stdev'], len(kept))
    c.check('statistics of the retained observations', c.true(set(rows) == {'cnt', 'min', 'med', 'max', 'avg', 'std'} and all(len(v) == 4 for v in rows.values())), sorted(rows))
    c.check('heading of the statistics', c.true(head is not None and head.split() == ['Easting', 'Northing', 'Head', 'Stdev']), head)
    for j in range(4):
        v = sorted([o[j] for o in kept])
        m = len(v)
        for what, w in (('cnt', m), ('min', v[0]), ('max', v[-1]), ('med', (v[(m - 1) // 2] + v[m // 2]) / 2), ('avg', sum(v) / m)):
            g, d = rows[what][j]
            c.check('%s of column %d' % (what, j), near(c, g, w, d + 1e-9 * abs(float(w)) if d else 0))
        g, d = rows['std'][j]
        mean = sum(v) / m
        var = sum((x - mean) * (x - mean) for x in v) / m
        c.check('std of column %d' % j, c.and_(c.le(0, g), near(c, g * g, var, d * (2 * abs(float(g)) + d) + 1e-9 * abs(float(var)) if d else 0)))


# ------------------------------------------------------------------------------------------------------------------ E07
class Sink(logging.Handler):
    """a log file: keeps what is written to it"""
    def __init__(self, name):
        logging.Handler.__init__(self, 0)
        self.name_of_file, self.text = name, []

    def emit(self, rec):
        self.text.append(rec.getMessage())


KINDS_OF_RUN = ('plain', 'other', 'unknown', 'failing')


@harness('E07', quick=[{'runs': 3}], thorough=[{'runs': r} for r in (2, 3, 4)], paths=20000)
def own_log(c):
    """every history of three driver runs (four thorough), each of one of two data modules with symbolic settings, of an unknown module, or of a module whose run
    fails; the entry point is a stub that logs two settings, log files are in-memory handlers. Each started run opens one log file, which
    receives everything that run logs and nothing of any other run."""
    files = []

    def opened(filename=None, *a, **k):
        files.append(Sink(filename))
        return files[-1]
    c.patch_attr(logging, 'FileHandler', opened)
    for name, project in (('verif_plain', 'One'), ('verif_other', 'Two'), ('verif_failing', 'Three')):
        m = types.ModuleType(name)
        for k in SETTINGS:
            setattr(m, k, {'PROJECTNAME': project, 'CONFINED': True, 'WELLS': [(1.0, 2.0, 0.5, 3.0)], 'OBSERVATIONS': [(1.0, 2.0, 3.0, 1.0)], 'TARGET': 0, 'NPATHS': 3, 'NREALIZATIONS': 2}.get(k, 1.0))
        m.DURATION, m.BASE = c.real(name + '_duration'), c.real(name + '_base')
        c.virtual_modules[name] = m
    log = logging.getLogger('Oneka')
    started = []

    def entry(d):
        started.append(d)
        log.info('run %d of %s: duration %s' % (len(started), d['projectname'], '{0:.2f}'.format(d['duration'])))
        log.info('run %d base %s' % (len(started), '{0:.2f}'.format(d['base'])))
        if d['projectname'] == 'Three':
            c.mod(ST).compute_variate_mean((1.0,))          # the error of a refused run
    c.record(ON, 'oneka', entry)
    run = c.mod('runme')
    want = []
    for i in range(c.params['runs']):
        kind = KINDS_OF_RUN[c.choice('run %d' % i, 4)]
        before = len(files)
        r, e = c.call(run.main, 'verif_' + kind if kind != 'unknown' else 'verif_no_such')
        c.check('an error of the run reaches the caller', c.true((e is not None) == (kind == 'failing')), repr(e))
        if kind == 'unknown':
            c.check('nothing is opened for an unknown module', c.true(len(files) == before))
            continue
        c.check('one log file per run', c.true(len(files) == before + 1), len(files))
        want.append(started[-1])
    c.check('one run per known module', c.true(len(want) == len(started) == len(files)))
    for i, (f, d) in enumerate(zip(files, want)):
        body = [t for t in f.text if t.startswith('run ')]
        c.check('the log file holds its own run', c.true(len(body) == 2 and all(t.startswith('run %d ' % (i + 1)) for t in body)), f.text)
        for t, v in zip(body, (d['duration'], d['base'])):
            g, slack = c.numbers(t)[-1]
            c.check('its settings', near(c, g, v, slack), t)
        c.check('its closing line, once', c.true(sum('elapsed' in t.lower() for t in f.text) == (d['projectname'] != 'Three')), f.text)
    c.check('nothing else keeps logging to a file of a finished run', c.true(not any(h in files for h in log.handlers)), log.handlers)


# ------------------------------------------------------------------------------------------------------------------ E08
class Halt(Exception):
    pass


STAGES = {'filter': (UT, 'filter_obs'), 'statistics': (UT, 'summary_statistics'), 'zone': (CZ, 'compute_capturezone'), 'map': (VI, 'create_probability_plot'),
          'impact': (VI, 'create_impact_plot'), 'area': (VI, 'create_deterministic_plot')}
COMMON = ('filter', 'statistics', 'fit', 'zone', 'empty')


@harness('E08', quick=[{'n': 1, 'stage': s} for s in COMMON + ('area',)] + [{'n': 4, 'stage': s} for s in COMMON + ('map', 'impact')],
         thorough=[{'n': 1, 'stage': s} for s in COMMON + ('area',)] + [{'n': n, 'stage': s} for n in (2, 4, 40) for s in COMMON + ('map', 'impact')])
def failing_run(c):
    """runs of 1 and 4 realizations (40 thorough) with the symbolic settings of E02 (the buffer apart) of which one stage fails: filtering, statistics, the fit or the capture
    zone of a symbolic realization, either plot, or a field left without weight; the kind of the error symbolic. The fit is a stub, the
    capture zones a stub that registers; archives go to an in-memory store (scratch files in real runs). Then a second run that does not fail."""
    n, stage = c.params['n'], c.params['stage']
    a = settings(c, n)
    a['buffer'] = 45.0
    a0 = copy.deepcopy(a)
    kept = c.must('filter', c.mod(UT).filter_obs, copy.deepcopy(a['observations']), copy.deepcopy(a['stochastic_wells']), a['buffer'])
    if len(kept) < 7:
        c.cut('refused')
    import numpy as real_numpy
    kinds = (ValueError, KeyError, ZeroDivisionError, real_numpy.linalg.LinAlgError, c.mod(MO).AquiferError, c.mod(MO).RangeError, Halt)
    which = c.choice('which', n) if stage in ('fit', 'zone') and n > 1 else 0
    error = kinds[c.choice('error', len(kinds))]('planned') if stage != 'empty' else None
    state = dict(armed=True, fits=0, zones=0, hits=0)

    def planned(hit):
        if state['armed'] and hit:
            state['hits'] += 1
            raise error
    Model = c.mod(MO).Model
    shape = Model.fit_regional_flow(Model(0.0, 1.0, 0.3, 10.0, []), [o for o in OBS], 0.0, 0.0)[0].shape

    def fit(self, obs, xo, yo):
        state['fits'] += 1
        planned(stage == 'fit' and state['fits'] == which + 1)
        self.xo, self.yo = xo, yo
        self.coef = c.numpy.reshape(c.numpy.array([0.0, 0.0, 0.0, 0.0, 0.0, 50.0]), shape)
        return self.coef, c.numpy.zeros((6, 6))
    c.patch_attr(Model, 'fit_regional_flow', fit)

    def zone(d):
        state['zones'] += 1
        planned(stage == 'zone' and state['zones'] == which + 1)
        if not (stage == 'empty' and state['armed']):
            d['pfield'].rgrid[0, 0] = True
            d['pfield'].register(d['weight'])
    c.record(CZ, 'compute_capturezone', zone)
    if stage in STAGES and stage != 'zone':
        real = getattr(c.mod(STAGES[stage][0]), STAGES[stage][1])

        def fails(*p, **k):
            planned(True)
            return real(*p, **k)
        c.patch(STAGES[stage][0], STAGES[stage][1], fails)
    start = len(c.plots)
    r, e = c.call(c.mod(ON).oneka, **a)
    c.check('the stage is reached', c.true(state['hits'] == 1 or stage == 'empty'), state)
    c.check('the error reaches the caller', c.true(e is not None and (error is None or type(e) is type(error))), repr(e))
    c.check('no archive', c.true(not [f for f in c.files() if 'oneka' in f.lower()]), c.files())
    c.check('nothing is shown', c.true(not [q for q in c.plots[start:] if q[0] == 'show']))
    c.check('inputs unchanged', c.same(a, a0))
    state.update(armed=False, fits=0, zones=0)
    r, e = c.call(c.mod(ON).oneka, **a)
    c.check('the next run succeeds', c.true(e is None), repr(e))
    c.check('all its realizations are carried out', c.and_(c.true(state['zones'] == n), c.eq(r.total_weight, n)), state)
    c.check('of its own', c.eq(r.pgrid[0, 0], n))
    got = archived(c)
    c.check('archived once', c.true(len(got) == 1), len(got))
    same_record(c, got[0], a0, r)
