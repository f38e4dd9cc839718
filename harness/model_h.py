"""Model: potential, discharge, head, velocity (M01-M05, M08)."""
from vlib.harness_api import harness


def wells_in(c, n, tag='w', form=0):
    ws = []
    for i in range(n):
        w = (c.real('%s%dx' % (tag, i)), c.real('%s%dy' % (tag, i)), 0.25 + i, c.real('%s%dq' % (tag, i)))
        ws.append(w if (i + form) % 2 == 0 else list(w))
    return ws


def coef_in(c, tag='k'):
    return [c.real('%s%s' % (tag, n)) for n in 'ABCDEF']


def aquifer(c, tag=''):
    """base, conductivity, porosity, thickness"""
    return (c.real(tag + 'base'), c.real(tag + 'cond', gt=0), c.real(tag + 'por', gt=0, lt=1, soft=(0.05, 0.9)), c.real(tag + 'thick', gt=0))


def make(c, n, tag='', form=0, coef_form='list'):
    M = c.mod('oneka.model').Model
    base, k, por, T = aquifer(c, tag)
    ws = wells_in(c, n, tag + 'w', form)
    xo, yo = c.real(tag + 'xo'), c.real(tag + 'yo')
    co = coef_in(c, tag + 'k')
    arg = {'list': co, 'array': c.numpy.array(co), 'column': c.numpy.array([[v] for v in co])}[coef_form]
    mo = M(base, k, por, T, ws, xo, yo, arg)
    return mo, dict(base=base, k=k, por=por, T=T, ws=ws, xo=xo, yo=yo, co=co)


def off_wells(c, x, y, ws):
    for w in ws:
        c.assume(c.lt(0, (x - w[0]) * (x - w[0]) + (y - w[1]) * (y - w[1])))


def wells_pot(c, x, y, ws):
    t = 0
    for w in ws:
        r2 = (x - w[0]) * (x - w[0]) + (y - w[1]) * (y - w[1])
        t = t + w[3] * c.log_(r2) / (4 * c.pi)
    return t


def potential(c, x, y, s):
    dx, dy = x - s['xo'], y - s['yo']
    A, B, C, D, E, F = s['co']
    return A * dx * dx + B * dy * dy + C * dx * dy + D * dx + E * dy + F + wells_pot(c, x, y, s['ws'])


def discharge(c, x, y, s):
    dx, dy = x - s['xo'], y - s['yo']
    A, B, C, D, E, F = s['co']
    qx, qy = -(2 * A * dx + C * dy + D), -(2 * B * dy + C * dx + E)
    for w in s['ws']:
        ex, ey = x - w[0], y - w[1]
        r2 = ex * ex + ey * ey
        qx = qx - w[3] * ex / (2 * c.pi * r2)
        qy = qy - w[3] * ey / (2 * c.pi * r2)
    return qx, qy


def point(c, tag=''):
    return c.real(tag + 'x'), c.real(tag + 'y')


def change(c, mo, s, what, tag):
    """One documented way of changing a model, mirrored in the specification state."""
    np = c.numpy
    if what == 'coef':
        co = coef_in(c, tag)
        mo.coef = np.array(co)
        s['co'] = co
    elif what == 'coef_item':
        v = c.real(tag + 'item')
        i = c.params.get('item', 0)
        mo.coef[i] = v
        s['co'] = list(s['co'])
        s['co'][i] = v
    elif what == 'wells':
        n = c.params.get('n2', 2)
        s['ws'] = wells_in(c, n, tag + 'w')
        mo.wells = s['ws']
    elif what == 'append':
        w = (c.real(tag + 'ax'), c.real(tag + 'ay'), 1.0, c.real(tag + 'aq'))
        mo.wells.append(w)
        if s['ws'] is not mo.wells:
            s['ws'] = list(s['ws']) + [w]
    elif what == 'replace':
        w = (c.real(tag + 'ax'), c.real(tag + 'ay'), 1.0, c.real(tag + 'aq'))
        mo.wells[0] = w
        if s['ws'] is not mo.wells:
            s['ws'] = [w] + list(s['ws'])[1:]
    elif what == 'origin':
        s['xo'], s['yo'] = mo.xo, mo.yo = c.real(tag + 'xo'), c.real(tag + 'yo')
    elif what == 'aquifer':
        b, k, p, T = aquifer(c, tag)
        mo.base, mo.conductivity, mo.porosity, mo.thickness = b, k, p, T
        s.update(base=b, k=k, por=p, T=T)
    return s


CHANGES = ['coef', 'coef_item', 'wells', 'append', 'replace', 'origin']


# ------------------------------------------------------------------------------------------------------------------ M01
@harness('M01', quick=[{'n': n, 'form': f} for n in (0, 1, 2, 3) for f in (0, 1)] + [{'n': 40, 'form': 0}],
         thorough=[{'n': n, 'form': f} for n in (0, 1, 2, 3, 4, 6, 8, 150) for f in (0, 1)])
def formula(c):
    """compute_potential and compute_potential_wells_only against the documented formula; all coefficients, origin, aquifer
    properties, location and wells symbolic reals; 0-3 and 40 wells (quick), up to 8 and 150 (thorough). Logarithm uninterpreted (congruence and
    power law only). Assumes the location is not a well."""
    n = c.params['n']
    mo, s = make(c, n, form=c.params['form'], coef_form=['array', 'column'][c.params['form']])
    x, y = point(c)
    off_wells(c, x, y, s['ws'])
    p = c.must('potential', mo.compute_potential, x, y)
    c.check('potential', c.eq(p, potential(c, x, y, s)))
    w = c.must('wells only', mo.compute_potential_wells_only, x, y)
    c.check('wells-only potential', c.eq(w, wells_pot(c, x, y, s['ws'])))
    # the same place again, and another place
    p2 = c.must('potential', mo.compute_potential, x, y)
    c.check('repeatable', c.eq(p2, p))
    x2, y2 = point(c, 'b')
    off_wells(c, x2, y2, s['ws'])
    c.check('potential elsewhere', c.eq(c.must('potential', mo.compute_potential, x2, y2), potential(c, x2, y2, s)))


@harness('M01', quick=[{'a': a, 'b': b} for a in CHANGES for b in ('', 'coef_item', 'wells', 'append')],
         thorough=[{'a': a, 'b': b, 'item': i} for a in CHANGES for b in [''] + CHANGES for i in (0, 3, 5)])
def history(c):
    """evaluate, change the model (attribute assignment, in-place coefficient, wells replaced / appended / edited in place, origin),
    evaluate at the same and at another point, change again, evaluate; 2 wells, everything symbolic; a second model is evaluated in
    between."""
    mo, s = make(c, 2, coef_form='array')
    other, so = make(c, 1, tag='o', coef_form='array')
    x, y = point(c)
    for i, what in enumerate([None, c.params['a'], c.params['b']]):
        if what == '':
            break
        if what:
            s = change(c, mo, s, what, 'c%d' % i)
        off_wells(c, x, y, s['ws'])
        off_wells(c, x, y, so['ws'])
        c.check('potential after %s' % what, c.eq(c.must('potential', mo.compute_potential, x, y), potential(c, x, y, s)))
        c.check('wells-only after %s' % what, c.eq(c.must('potential', mo.compute_potential_wells_only, x, y), wells_pot(c, x, y, s['ws'])))
        c.check('other model', c.eq(c.must('potential', other.compute_potential, x, y), potential(c, x, y, so)))


# ------------------------------------------------------------------------------------------------------------------ M02
@harness('M02', quick=[{'n': n} for n in (0, 1, 2, 3)], thorough=[{'n': n} for n in (0, 1, 2, 3, 4, 5, 6)])
def gradient(c):
    """discharge == -(d/dx, d/dy) of the potential the same model reports (differentiated symbolically); 0-3 wells (quick), up to 6
    (thorough), everything symbolic; location not a well."""
    mo, s = make(c, c.params['n'], coef_form='array')
    x, y = point(c)
    off_wells(c, x, y, s['ws'])
    q = c.must('discharge', mo.compute_discharge, x, y)
    c.check('two components', c.true(len(q) == 2))
    gx = c.grad(mo.compute_potential, (x, y), 0)
    gy = c.grad(mo.compute_potential, (x, y), 1)
    sc = potential_scale(c, q)
    c.check('Qx = -dPhi/dx', c.eq(q[0], -gx, tol=sc))
    c.check('Qy = -dPhi/dy', c.eq(q[1], -gy, tol=sc))
    e = discharge(c, x, y, s)
    c.check('Qx formula', c.eq(q[0], e[0]))
    c.check('Qy formula', c.eq(q[1], e[1]))


def potential_scale(c, q):
    return 0 if c.symbolic else c.GRAD_TOL * (1 + abs(q[0]) + abs(q[1]))


@harness('M02', quick=[{'a': a, 'b': b} for a in CHANGES for b in ('', 'coef', 'append')],
         thorough=[{'a': a, 'b': b, 'item': i} for a in CHANGES for b in [''] + CHANGES for i in (0, 2, 4)])
def gradient_history(c):
    """the same after changes of the model between evaluations; 2 wells; a second model is evaluated in between."""
    mo, s = make(c, 2, coef_form='array')
    other, so = make(c, 1, tag='o', coef_form='array')
    x, y = point(c)
    for i, what in enumerate([None, c.params['a'], c.params['b']]):
        if what == '':
            break
        if what:
            s = change(c, mo, s, what, 'c%d' % i)
        off_wells(c, x, y, s['ws'])
        off_wells(c, x, y, so['ws'])
        q = c.must('discharge', mo.compute_discharge, x, y)
        e = discharge(c, x, y, s)
        c.check('Q after %s' % what, c.eqs(q, e))
        c.check('other model', c.eqs(c.must('discharge', other.compute_discharge, x, y), discharge(c, x, y, so)))


# ------------------------------------------------------------------------------------------------------------------ M03
@harness('M03', quick=[{'n': n} for n in (0, 1, 2, 3)], thorough=[{'n': n} for n in (0, 1, 2, 3, 4, 5)])
def balance(c):
    """divergence == -2(A+B) and curl == 0 at every non-well location (symbolic differentiation of compute_discharge); 0-3 wells
    (quick), up to 5 (thorough)."""
    mo, s = make(c, c.params['n'], coef_form='array')
    x, y = point(c)
    off_wells(c, x, y, s['ws'])
    Q = lambda i: (lambda u, v: mo.compute_discharge(u, v)[i])
    q = c.must('discharge', mo.compute_discharge, x, y)
    if not c.symbolic:
        for w in s['ws']:                       # finite differences need some distance
            if (x - w[0]) ** 2 + (y - w[1]) ** 2 < 0.05:
                c.assume(False)
    tol = 0 if c.symbolic else 1e-4 * (1 + abs(q[0]) + abs(q[1]) + sum(abs(w[3]) for w in s['ws']))
    div = c.grad(Q(0), (x, y), 0) + c.grad(Q(1), (x, y), 1)
    curl = c.grad(Q(1), (x, y), 0) - c.grad(Q(0), (x, y), 1)
    c.check('divergence', c.eq(div, -2 * (s['co'][0] + s['co'][1]), tol=tol))
    c.check('irrotational', c.eq(curl, 0, tol=tol))


@harness('M03', quick=[{'n': n} for n in (1, 2, 3)], thorough=[{'n': n} for n in (1, 2, 3, 4, 5)])
def capture(c):
    """a well's own contribution (model with the well minus model without it) is radial, points at a pumping well, and its flux
    2*pi*r*|Q| through the circle through any point equals the rate; contributions superpose: the discharge with all wells equals
    regional + sum of single-well contributions; 1-3 wells (quick), up to 5."""
    n = c.params['n']
    mo, s = make(c, n, coef_form='array')
    x, y = point(c)
    off_wells(c, x, y, s['ws'])
    q_all = c.must('discharge', mo.compute_discharge, x, y)
    M = c.mod('oneka.model').Model
    reg = M(s['base'], s['k'], s['por'], s['T'], [], s['xo'], s['yo'], c.numpy.array(s['co']))
    q_reg = c.must('discharge', reg.compute_discharge, x, y)
    sx, sy = q_reg[0], q_reg[1]
    for i, w in enumerate(s['ws']):
        one = M(s['base'], s['k'], s['por'], s['T'], [w], s['xo'], s['yo'], c.numpy.array(s['co']))
        q = c.must('discharge', one.compute_discharge, x, y)
        ux, uy = q[0] - q_reg[0], q[1] - q_reg[1]
        dx, dy = x - w[0], y - w[1]
        c.check('radial', c.eq(ux * dy - uy * dx, 0, scale=abs(ux * dy) if not c.symbolic else None))
        # flux through the circle of radius r around the well: 2 pi r * (-u.n), n = (dx,dy)/r
        c.check('flux = rate', c.eq(-2 * c.pi * (ux * dx + uy * dy), w[3]))
        if w[3] > 0:
            c.check('pumping well attracts', c.lt(ux * dx + uy * dy, 0))
        sx, sy = sx + ux, sy + uy
    c.check('superposition', c.eqs(q_all, (sx, sy)))


# ------------------------------------------------------------------------------------------------------------------ M04
class PotentialModel:
    pass


def forced_model(c, pot, k, T, por=None, discharge=None):
    """A real Model whose potential at any point is the given value (its F coefficient; no wells, other coefficients zero)."""
    M = c.mod('oneka.model').Model
    co = [0.0, 0.0, 0.0, 0.0, 0.0, pot]
    return M(c.real('base'), k, por if por is not None else c.real('por', gt=0, lt=1), T, [], 0.0, 0.0, c.numpy.array(co))


@harness('M04', quick=[{}])
def inverse(c):
    """head for every real potential (uniform model: potential = F), conductivity > 0, thickness > 0: AquiferError iff potential <= 0;
    otherwise head > 0 and inverts the potential on the branch chosen by head vs thickness (both at equality)."""
    phi, k, T = c.real('phi', soft=(-20, 200)), c.real('cond', gt=0), c.real('thick', gt=0)
    mo = forced_model(c, phi, k, T)
    x, y = point(c)
    h, e = c.call(mo.compute_head, x, y)
    AE = c.mod('oneka.model').AquiferError
    if phi <= 0:
        c.check('dry refused', c.true(isinstance(e, AE)))
        return
    c.check('wet accepted', c.true(e is None), repr(e))
    if e is not None:
        return
    c.check('head positive', c.lt(0, h))
    if h <= T:
        c.check('unconfined inverse', c.eq(k * h * h / 2, phi))
    if h >= T:
        c.check('confined inverse', c.eq(k * T * h - k * T * T / 2, phi))


@harness('M04', quick=[{}])
def monotone(c):
    """two arbitrary potentials 0 < p1 < p2 in the same aquifer: head(p1) < head(p2); and continuity at the transition: the head of
    the transition potential is exactly the thickness, heads below it are < T and above it > T."""
    k, T = c.real('cond', gt=0), c.real('thick', gt=0)
    p1, p2 = c.real('p1', gt=0, soft=(0, 100)), c.real('p2', gt=0, soft=(0, 200))
    c.assume(c.lt(p1, p2))
    M = c.mod('oneka.model').Model
    f = lambda p: M(0.0, k, 0.2, T, [], 0.0, 0.0, c.numpy.array([0.0] * 5 + [p])).compute_head(0.0, 0.0)
    h1 = c.must('head', f, p1)
    h2 = c.must('head', f, p2)
    c.check('strictly increasing', c.lt(h1, h2))
    ht = c.must('head', f, k * T * T / 2)
    c.check('transition', c.eq(ht, T))
    if p1 < k * T * T / 2:
        c.check('below transition', c.lt(h1, T))
    if p1 > k * T * T / 2:
        c.check('above transition', c.lt(T, h1))


def targeted(c, n, x, y, tag=''):
    """A model with n wells whose potential and discharge at (x, y) are symbols of their own: the coefficients D, E, F are whatever makes
    it so (they are free, so this loses no generality)."""
    mo, s = make(c, n, tag=tag, coef_form='array')
    off_wells(c, x, y, s['ws'])
    return mo, s, retarget(c, mo, s, x, y, tag)


def retarget(c, mo, s, x, y, tag):
    phi, qx, qy = c.real(tag + 'phi', soft=(-20, 200)), c.real(tag + 'qx'), c.real(tag + 'qy')
    s['co'] = list(s['co'][:3]) + [0, 0, 0]
    rx, ry = discharge(c, x, y, s)
    s['co'][3], s['co'][4] = rx - qx, ry - qy
    s['co'][5] = phi - potential(c, x, y, s)
    mo.coef = c.numpy.array(s['co'])
    if not c.symbolic:
        phi = potential(c, x, y, s)             # rounding: the sign of a potential near zero is not settled in a real run
        c.assume(abs(phi) > 1e-6)
    s['q'] = (qx, qy)
    return phi


def aquifer_error(c):
    return c.mod('oneka.model').AquiferError


@harness('M04', quick=[{'n': n} for n in (0, 1, 2)], thorough=[{'n': n} for n in (0, 1, 2, 3, 4)])
def head_of_model(c):
    """the same inversion on a full model (regional flow + 0-2 wells, up to 4 thorough), everything symbolic."""
    x, y = point(c)
    mo, s, phi = targeted(c, c.params['n'], x, y)
    inversion(c, mo, s, phi, x, y, '')


def inversion(c, mo, s, phi, x, y, when):
    h, e = c.call(mo.compute_head, x, y)
    if phi <= 0:
        c.check('dry refused' + when, c.true(isinstance(e, aquifer_error(c))))
        return
    c.check('wet accepted' + when, c.true(e is None), repr(e))
    if e is not None:
        return
    k, T = s['k'], s['T']
    c.check('head positive' + when, c.lt(0, h))
    if h <= T:
        c.check('unconfined inverse' + when, c.eq(k * h * h / 2, phi))
    if h >= T:
        c.check('confined inverse' + when, c.eq(k * T * h - k * T * T / 2, phi))


HEAD_CHANGES = ['aquifer', 'wells', 'coef', 'origin', 'append']


@harness('M04', quick=[{'what': w} for w in HEAD_CHANGES] + [{'what': None}], thorough=[{'what': w, 'n': n} for w in HEAD_CHANGES + [None] for n in (0, 1, 2) if n or w != 'replace'])
def head_history(c):
    """head after an earlier evaluation (head and velocity, whatever their outcome) of the same model at another or the same place and
    a change of aquifer properties, wells, coefficients or origin; 1 well (quick)."""
    x0, y0 = point(c, 'first')
    mo, s, phi0 = targeted(c, c.params.get('n', 1), x0, y0)
    c.call(mo.compute_head, x0, y0)
    what = c.params['what']
    x, y = (x0, y0) if what else point(c)
    if what:
        s = change(c, mo, s, what, 'z')
    off_wells(c, x, y, s['ws'])
    phi = retarget(c, mo, s, x, y, 'second')
    inversion(c, mo, s, phi, x, y, ' after %s' % what)


# ------------------------------------------------------------------------------------------------------------------ M05
@harness('M05', quick=[{'n': n} for n in (0, 1, 2)], thorough=[{'n': n} for n in (0, 1, 2, 3, 4)])
def velocity(c):
    """velocity against discharge/(porosity*min(head, T)) with the specified discharge and the model's own head; dry -> AquiferError;
    assumed-confined velocity == discharge/(T*porosity) and agrees where head >= T; 0-2 wells (quick), up to 4."""
    x, y = point(c)
    mo, s, phi = targeted(c, c.params['n'], x, y)
    speeds(c, mo, s, phi, x, y, '')


def speeds(c, mo, s, phi, x, y, when):
    q = s['q']
    vc = c.must('confined velocity', mo.compute_velocity_confined, x, y)
    c.check('confined velocity' + when, c.eqs(vc, [v / (s['T'] * s['por']) for v in q]))
    v, e = c.call(mo.compute_velocity, x, y)
    if phi <= 0:
        c.check('dry refused' + when, c.true(isinstance(e, aquifer_error(c))))
        return
    c.check('wet accepted' + when, c.true(e is None), repr(e))
    if e is not None:
        return
    h = c.must('head', mo.compute_head, x, y)
    if h < s['T']:
        c.check('unconfined: v*n*h = Q' + when, c.eqs([u * s['por'] * h for u in v], q))
    else:
        c.check('confined: v*n*T = Q' + when, c.eqs([u * s['por'] * s['T'] for u in v], q))
        c.check('confined agrees' + when, c.eqs(v, vc))


@harness('M05', quick=[{'what': w} for w in HEAD_CHANGES] + [{'what': None}], thorough=[{'what': w, 'n': n} for w in HEAD_CHANGES + [None] for n in (0, 1, 2)])
def velocity_history(c):
    """velocity after an earlier evaluation of the same model at another or the same place and a change of aquifer properties, wells,
    coefficients or origin; 1 well (quick)."""
    x0, y0 = point(c, 'first')
    mo, s, phi0 = targeted(c, c.params.get('n', 1), x0, y0)
    c.call(mo.compute_velocity, x0, y0)
    c.call(mo.compute_velocity_confined, x0, y0)
    what = c.params['what']
    x, y = (x0, y0) if what else point(c)
    if what:
        s = change(c, mo, s, what, 'z')
    off_wells(c, x, y, s['ws'])
    phi = retarget(c, mo, s, x, y, 'second')
    speeds(c, mo, s, phi, x, y, ' after %s' % what)


# ------------------------------------------------------------------------------------------------------------------ M06
def observations(c, n, tag='o', spots=None):
    obs = []
    for i in range(n):
        x, y = (c.real('%s%dx' % (tag, i)), c.real('%s%dy' % (tag, i))) if spots is None else spots[i]
        ob = (x, y, c.real('%s%dz' % (tag, i)), c.real('%s%ds' % (tag, i), gt=0, soft=(0.5, 4)))
        obs.append(list(ob) if i % 2 else ob)
    return obs


def moments(c, s, ob):
    """(expected potential, standard deviation) of an observation, or None if it is at or below the base"""
    h = ob[2] - s['base']
    if h >= s['T']:
        return s['k'] * s['T'] * (h - s['T'] / 2), s['k'] * s['T'] * ob[3]
    if h > 0:
        return s['k'] * (h * h + ob[3] * ob[3]) / 2, s['k'] * h * ob[3]
    return None


@harness('M06', quick=[{'n': n, 'w': w} for n in (1, 2, 3) for w in (0, 1, 2)], thorough=[{'n': n, 'w': w} for n in (1, 2, 3, 4, 5) for w in (0, 1, 2, 3)])
def fit_rows(c):
    """construct_fit with 1-3 observations (up to 5 thorough) and 0-2 wells (up to 3), all values symbolic (locations, heads, deviations,
    origin, aquifer, wells), against the first-order-second-moment rows for a symbolic candidate coefficient vector; range error iff some
    observation is at or below the base."""
    n = c.params['n']
    mo, s = make(c, c.params['w'], coef_form='array')
    obs = observations(c, n)
    xo, yo = c.real('fxo'), c.real('fyo')
    for ob in obs:
        off_wells(c, ob[0], ob[1], s['ws'])
    mm = [moments(c, s, ob) for ob in obs]
    r, e = c.call(mo.construct_fit, obs, xo, yo)
    RE = c.mod('oneka.model').RangeError
    if any(m is None for m in mm):
        c.check('dry observation refused', c.true(isinstance(e, RE)), repr(e))
        return
    c.check('accepted', c.true(e is None), repr(e))
    if e is not None:
        return
    WA, Wb = r
    c.check('shapes', c.true(tuple(WA.shape) == (n, 6) and tuple(Wb.shape) in ((n, 1), (n,))))
    cand = coef_in(c, 'cand')
    t = dict(s, co=cand, xo=xo, yo=yo)
    b = Wb.reshape(-1)
    for i, ob in enumerate(obs):
        row = sum(WA[i, j] * cand[j] for j in range(6)) - b[i]
        ev, sd = mm[i]
        c.check('row %d' % i, c.eq(row * sd, potential(c, ob[0], ob[1], t) - ev))


@harness('M06', quick=[{'n': 15, 'w': 3}, {'n': 40, 'w': 12}], thorough=[{'n': n, 'w': w} for n in (6, 15, 40, 120) for w in (0, 3, 12, 30)], validate=2)
def fit_rows_many(c):
    """construct_fit with 15 and 40 observations (120 thorough) and 3 and 12 wells (30), everything symbolic; every third head between 10 % and 90 %
    of the thickness, the others above it (so that the regime of each observation is known)."""
    n = c.params['n']
    mo, s = make(c, c.params['w'], coef_form='array')
    obs = []
    for i in range(n):
        r = c.real('r%d' % i, *((0.1, 0.9) if i % 3 == 1 else (1, 4)))
        obs.append((c.real('o%dx' % i), c.real('o%dy' % i), s['base'] + s['T'] * r, c.real('o%ds' % i, gt=0, soft=(0.5, 4))))
    xo, yo = c.real('fxo'), c.real('fyo')
    for ob in obs:
        off_wells(c, ob[0], ob[1], s['ws'])
    WA, Wb = c.must('construct_fit', mo.construct_fit, obs, xo, yo)
    c.check('shapes', c.true(tuple(WA.shape) == (n, 6) and tuple(Wb.shape) in ((n, 1), (n,))))
    cand = coef_in(c, 'cand')
    t = dict(s, co=cand, xo=xo, yo=yo)
    b = Wb.reshape(-1)
    for i, ob in enumerate(obs):
        ev, sd = moments(c, s, ob)
        c.check('row %d' % i, c.eq((sum(WA[i, j] * cand[j] for j in range(6)) - b[i]) * sd, potential(c, ob[0], ob[1], t) - ev))


# ------------------------------------------------------------------------------------------------------------------ M07
SPOTS = [(0, 0), (3, 1), (-2, 4), (5, -3), (1, 6), (-4, -2), (2, -5), (7, 4), (-6, 5)]
SPOTS = [(1.5 * x + 0.25, 2.0 * y - 0.5) for x, y in SPOTS]
def sound_model(c, n):
    """a model in the numerically sane range used by the fits (bounds, not idealisation: a real inverse is compared in doubles)"""
    M = c.mod('oneka.model').Model
    s = {}
    s['base'], s['por'] = c.real('base', -4, 8), 0.25
    s['k'], s['T'] = c.real('cond', 0.25, 8), c.real('thick', 1, 8)
    s['ws'] = [(c.real('w%dx' % i, -30, 30, soft=(-8, 8)), c.real('w%dy' % i, -30, 30, soft=(-8, 8)), 0.25, c.real('w%dq' % i, -50, 50, soft=(-8, 8))) for i in range(n)]
    s['xo'], s['yo'], s['co'] = 0.0, 0.0, [0.0] * 6
    return M(s['base'], s['k'], s['por'], s['T'], s['ws'], 0.0, 0.0, c.numpy.zeros(6)), s


def sound_observations(c, s, n, kind, tag='o', spots=None):
    """n observations at fixed places; elevations are base + head with the heads symbolic, in the given regime"""
    obs, pat = [], REGIMES[kind]
    for i in range(n):
        if pat[i % len(pat)]:
            h = c.real('%s%dh' % (tag, i), s['T'], 20, soft=(8, 12))
        else:
            h = c.real('%s%dh' % (tag, i), 0.25, lt=s['T'], soft=(0.3, 1))
        x, y = (spots or SPOTS)[i]
        ob = (x, y, s['base'] + h, c.real('%s%ds' % (tag, i), 0.25, 4))
        obs.append(list(ob) if i % 2 else ob)
    for ob in obs:
        for w in s['ws']:
            c.assume(c.lt(0.01, (ob[0] - w[0]) * (ob[0] - w[0]) + (ob[1] - w[1]) * (ob[1] - w[1])))
    return obs


REGIMES = {'confined': [1], 'unconfined': [0], 'mixed': [1, 0]}


def solution(c, mo, s, obs, xo, yo, ev, cov, when):
    """normal equations and covariance, from the observations and the aquifer alone"""
    np = c.numpy
    rows, resid, sds = [], [], []
    for ob in obs:
        e, sd = moments(c, s, ob)
        dx, dy = ob[0] - xo, ob[1] - yo
        rows.append([dx * dx, dy * dy, dx * dy, dx, dy, 1])
        t = dict(s, co=list(np.reshape(ev, [6])), xo=xo, yo=yo)
        resid.append(potential(c, ob[0], ob[1], t) - e)
        sds.append(sd)
    for j in range(6):
        terms = [rows[i][j] * resid[i] / (sds[i] * sds[i]) for i in range(len(obs))]
        c.check('residuals orthogonal to regressor %d%s' % (j, when), c.eq(sum(terms), 0, scale=None if c.symbolic else 1 + sum(abs(t) for t in terms)))
    N = [[sum(rows[i][j] * rows[i][l] / (sds[i] * sds[i]) for i in range(len(obs))) for l in range(6)] for j in range(6)]
    for j in range(6):
        conds = []
        for l in range(6):
            terms = [cov[j, m] * N[m][l] for m in range(6)]
            conds.append(c.eq(sum(terms), 1 if j == l else 0, scale=None if c.symbolic else 1 + sum(abs(t) for t in terms)))
        c.check('covariance inverts the normal matrix, row %d%s' % (j, when), c.all(conds))
    c.check('installed coefficients' + when, c.eqs(np.reshape(mo.coef, [6]), np.reshape(ev, [6])))
    c.check('installed origin' + when, c.and_(c.eq(mo.xo, xo), c.eq(mo.yo, yo)))


@harness('M07', quick=[{'n': n, 'w': w, 'kind': k} for n, w, k in [(6, 0, 'confined'), (6, 1, 'mixed'), (7, 1, 'confined'), (7, 0, 'unconfined'), (7, 1, 'mixed')]],
         thorough=[{'n': n, 'w': w, 'kind': k} for n in (6, 7, 8, 9) for w in (0, 1, 2) for k in REGIMES], validate=3)
def fit(c):
    """fit_regional_flow with 6-7 observations at fixed distinct locations (up to 9 thorough), heads, deviations, aquifer and wells
    symbolic (origin too for 6 observations), bounded to a numerically sane range, in confined / unconfined / mixed regimes. numpy.linalg.lstsq / inv / solve / pinv are replaced by their contracts
    (normal equations; A X = X A = I), so the numerical solver itself is trusted and the matrix is assumed regular."""
    mo, s = sound_model(c, c.params['w'])
    obs = sound_observations(c, s, c.params['n'], c.params['kind'])
    xo, yo = (c.real('fxo', -2, 2), c.real('fyo', -2, 2)) if c.params['n'] == 6 and not c.params['w'] else (0.75, -1.5)
    r = c.must('fit', mo.fit_regional_flow, obs, xo, yo)
    ev, cov = r
    c.check('shapes', c.true(c.numpy.size(ev) == 6 and tuple(c.numpy.shape(cov)) == (6, 6)))
    solution(c, mo, s, obs, xo, yo, ev, cov, '')


@harness('M07', quick=[{'n': n, 'kind': k, 'far': f} for n, k, f in [(7, 'confined', -1), (6, 'confined', 0), (12, 'confined', 0), (12, 'unconfined', 0), (25, 'mixed', 0), (7, 'confined', 1), (12, 'mixed', 1), (150, 'confined', 0)]],
         thorough=[{'n': n, 'kind': k, 'far': f} for n in (6, 7, 8, 12, 25, 60, 150, 300) for k in REGIMES for f in (0, 1, -1)], validate=3, cost=2)
def fit_many(c):
    """fit with up to 150 observations (300 thorough), a few hundred millimetres or many kilometres apart, at fixed places (the 6th and 7th share one, so do the 1st and 9th, and with the same deviation the 10th and 11th) with fixed deviations and aquifer; heads
    symbolic in confined / unconfined / mixed regimes, two wells with symbolic discharges. The contract of lstsq / pinv promises nothing when a
    coarse rcond is passed."""
    n, far = c.params['n'], c.params['far']
    s = dict(base=c.exact(12.5), por=0.25, k=c.exact(2.0), T=c.exact(6.0), xo=0.0, yo=0.0, co=[0.0] * 6)
    f = {0: 1.0, 1: 180.0, -1: 0.0625}[far]
    s['ws'] = [(c.exact(3.5 * f), c.exact(-6.25 * f), 0.25, c.real('w0q', -50, 50, soft=(-8, 8))), (c.exact(-9.5 * f), c.exact(4.125 * f), 0.5, c.real('w1q', -50, 50, soft=(-8, 8)))]
    mo = c.mod('oneka.model').Model(s['base'], s['k'], s['por'], s['T'], s['ws'], 0.0, 0.0, c.numpy.zeros(6))
    obs = []
    for i in range(n):
        j = {6: 5, 8: 0, 10: 9}.get(i, i)          # wells of a nest, and one measured twice
        x, y = SPOTS[j] if j < len(SPOTS) else ((j * 7) % 23 - 11 + j / 64, (j * 11) % 19 - 9 - j / 64)
        lo, hi = (6, 90) if REGIMES[c.params['kind']][i % len(REGIMES[c.params['kind']])] else (1, 5)
        obs.append((c.exact(x * f), c.exact(y * f), s['base'] + c.real('h%d' % i, lo, hi), c.exact([0.5, 1.0, 0.25, 2.0][i % 4 if i != 10 else 1])))
    xo, yo = c.exact(0.75 * f), c.exact(-1.5 * f)
    r = c.must('fit', mo.fit_regional_flow, obs, xo, yo)
    ev, cov = r
    c.check('shapes', c.true(c.numpy.size(ev) == 6 and tuple(c.numpy.shape(cov)) == (6, 6)))
    solution(c, mo, s, obs, xo, yo, ev, cov, '')


@harness('M07', quick=[{'what': w} for w in ('obs', 'inplace', 'wells', 'append', 'aquifer', 'failed', 'origin')], thorough=[{'what': w, 'kind2': k} for w in ('obs', 'inplace', 'wells', 'append', 'aquifer', 'failed', 'origin') for k in REGIMES], validate=3)
def refit(c):
    """a second fit of the same model after the observations (new list, or edited in place), wells, aquifer or origin changed, or after a
    refused fit; 6 observations, 1 well; same contracts."""
    mo, s = sound_model(c, 1)
    obs = sound_observations(c, s, 6, 'confined')
    what = c.params['what']
    k2 = c.params.get('kind2', 'confined')
    xo, yo = (c.real('fxo', -2, 2), c.real('fyo', -2, 2)) if what == 'origin' else (0.5, -0.25)
    first = c.must('fit', mo.fit_regional_flow, obs, 0.5, -0.25)
    if what == 'obs':
        obs = sound_observations(c, s, 6, k2, 'p', SPOTS[3:])
    elif what == 'inplace':
        new = sound_observations(c, s, 4, k2, 'p', SPOTS[5:])
        obs[1] = new[2]
        obs[3][2] = new[1][2]
    elif what == 'wells':
        s['ws'] = mo.wells = [(c.real('nwx', 15, 30), c.real('nwy', 15, 30), 1.0, c.real('nwq', -50, 50, soft=(-8, 8))) for i in range(1)]
    elif what == 'append':
        mo.wells.append((c.real('nwx', 15, 30), c.real('nwy', 15, 30), 1.0, c.real('nwq', -50, 50, soft=(-8, 8))))
        s['ws'] = mo.wells
    elif what == 'aquifer':
        s['k'] = mo.conductivity = c.real('ncond', 0.25, 8)
        obs = sound_observations(c, s, 6, k2, 'p')
    elif what == 'failed':
        bad = list(obs)
        bad[2] = (bad[2][0], bad[2][1], s['base'] - c.real('below', lo=0), 1.0)
        co = [v for v in mo.coef]
        r, e = c.call(mo.fit_regional_flow, bad, 2.0, 3.0)
        c.check('refused', c.true(isinstance(e, c.mod('oneka.model').RangeError)))
        c.check('a refused fit leaves the model', c.all([c.eqs(mo.coef, co), c.eq(mo.xo, 0.5), c.eq(mo.yo, -0.25)]))
    r = c.must('fit', mo.fit_regional_flow, obs, xo, yo)
    solution(c, mo, s, obs, xo, yo, r[0], r[1], ' (refit)')


# ------------------------------------------------------------------------------------------------------------------ M09
@harness('M09', quick=[{'n': n, 'kind': k, 'what': w} for n, k, w in [(6, 'confined', 'origin'), (9, 'mixed', 'origin'), (25, 'unconfined', 'origin'), (150, 'confined', 'origin'), (7, 'confined', 'order'), (150, 'mixed', 'all'), (30, 'mixed', 'order'), (8, 'mixed', 'shift'), (24, 'confined', 'shift'), (8, 'confined', 'zero'), (7, 'mixed', 'far')]] + [{'n': 6, 'kind': 'confined', 'what': 'origin', 'free': 1}],
         thorough=[{'n': n, 'kind': k, 'what': w} for n in (6, 7, 9, 12, 30, 150, 400) for k in REGIMES for w in ('origin', 'order', 'shift', 'all', 'zero', 'far')], validate=3)
def same_flow(c):
    """two models fitted to the same 6-150 observations (400 thorough) with two local origins, with the observations (and wells) in another
    order, or with everything (wells, observations, origin) shifted by a fixed offset; fixed places, deviations and aquifer, symbolic heads where confined
    and symbolic discharges of two wells; same contracts for the solver as M07. Potential (regional and total), discharge and the variance of the regional potential are compared at seven places (which
    determine a conic), one of them a fit's origin.
    The second model has another origin and other coefficients beforehand, for 6 and 7 observations also an earlier fit. The 6th and 7th observations share a place, as do the 1st and 9th."""
    n, kind, what = c.params['n'], c.params['kind'], c.params['what']
    T = c.exact(6.0)
    base = c.exact(12.5)
    cond = c.real('k', 0.5, 4) if c.params.get('free') else c.exact(2.0)
    q = [c.real('q%d' % i, -50, 50, soft=(-8, 8)) for i in range(2)]
    f = 12.0
    place = lambda i: SPOTS[{6: 5, 8: 0}.get(i, i)] if i < len(SPOTS) else ((i * 7) % 23 - 11 + i / 64, (i * 11) % 19 - 9 - i / 64)
    heads = []
    for i in range(n):
        deep = REGIMES[kind][i % len(REGIMES[kind])]
        heads.append(c.real('h%d' % i, 6, 14) if deep else c.exact((6 if deep else 1) + (i * 5) % 32 / 8))

    def fitted(ox, oy, order, xo, yo):
        ws = [(c.exact(3.5 * f + ox), c.exact(-6.25 * f + oy), 0.25, q[0]), (c.exact(-9.5 * f + ox), c.exact(4.125 * f + oy), 0.5, q[1])]
        obs = []
        for i in range(n):
            x, y = place(i)
            ob = (c.exact(x * f + ox), c.exact(y * f + oy), base + heads[i], c.exact([0.5, 1.0, 0.25, 2.0][i % 4]))
            obs.append(list(ob) if i % 3 == 1 else ob)
        if order:
            ws.reverse()
            obs = obs[n // 2:] + obs[:n // 2][::-1]
        used = xo != 9.0 or order
        mo = c.mod('oneka.model').Model(base, cond, 0.25, T, ws, *((c.exact(70.0), c.exact(-3.0), c.numpy.ones(6)) if used else (0.0, 0.0, c.numpy.zeros(6))))
        if used and n < 8:
            c.must('earlier fit', mo.fit_regional_flow, obs[::-1], c.exact(5.0), c.exact(-41.0))
        ev, cov = c.must('fit', mo.fit_regional_flow, obs, c.exact(xo + ox), c.exact(yo + oy))
        return mo, cov, ox, oy

    shift = (4096.0, -2048.0) if what in ('shift', 'all') else (524288.328125, 5242880.15625) if what == 'far' else (0.0, 0.0)
    other = (-37.5, 64.25) if what in ('origin', 'all') else (0.0, 0.0) if what == 'zero' else (9.0, -18.0)
    a = fitted(0.0, 0.0, False, 9.0, -18.0)
    b = fitted(shift[0], shift[1], what in ('order', 'all'), *other)
    for k, (x, y) in enumerate(((9.0, -18.0), (55.0, 20.0), (-40.0, 31.0), (15.5, 77.0), (-66.0, -50.0), (0.5, 0.25), (3000.0, 2500.0))):
        got = []
        for mo, cov, ox, oy in (a, b):
            X, Y = c.exact(x + ox), c.exact(y + oy)
            dx, dy = X - mo.xo, Y - mo.yo
            r = [dx * dx, dy * dy, dx * dy, dx, dy, c.exact(1)]
            var = sum(r[i] * cov[i, j] * r[j] for i in range(6) for j in range(6))
            phi = c.must('potential', mo.compute_potential, X, Y)
            wo = c.must('potential of the wells', mo.compute_potential_wells_only, X, Y)
            qx, qy = c.must('discharge', mo.compute_discharge, X, Y)
            got.append((phi, wo, qx, qy, var))
        (p0, w0, x0, y0, v0), (p1, w1, x1, y1, v1) = got
        size = 1 + 40 * k ** 4 if not c.symbolic else None
        c.check('potential', c.eq(p0, p1, scale=size))
        c.check('regional potential', c.eq(p0 - w0, p1 - w1, scale=size))
        c.check('discharge', c.and_(c.eq(x0, x1, scale=size), c.eq(y0, y1, scale=size)))
        c.check('variance of the regional potential', c.eq(v0, v1, scale=None if c.symbolic else 1 + abs(v0)))

# ------------------------------------------------------------------------------------------------------------------ M08
def snapshot(x):
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    return x


def unchanged(c, a, b):
    """a (now) against a snapshot b"""
    if isinstance(b, list):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return c.true(False)
        return c.all([unchanged(c, x, y) for x, y in zip(a, b)])
    return c.eq(a, b)


def state(mo):
    return [mo.base, mo.conductivity, mo.porosity, mo.thickness, snapshot(mo.wells), mo.xo, mo.yo, [v for v in mo.coef]]


@harness('M08', quick=[{'n': n} for n in (0, 1, 2)] + [{'n': 2, 'label': 1}], thorough=[{'n': n} for n in (0, 1, 2, 3, 4)] + [{'n': 3, 'label': 1}])
def evaluations_pure(c):
    """potential, wells-only potential, discharge, head, velocity and confined velocity at a symbolic location (aquifer error included)
    leave the model, the caller's wells and a second model unchanged; the discharge list handed out is not shared with later results;
    0-2 wells (quick), also wells with further fields."""
    x, y = point(c)
    mo, s, phi = targeted(c, c.params['n'], x, y)
    if c.params.get('label'):           # wells with further fields, in the caller's list
        for i, w in enumerate(s['ws']):
            s['ws'][i] = tuple(w) + ('PW%d' % i,) if i % 2 else list(w) + ['PW%d' % i, 17]
    other, so = make(c, 1, tag='o', coef_form='array')
    ws = snapshot(s['ws'])
    off_wells(c, x, y, so['ws'])
    st, ot = state(mo), state(other)
    q1 = c.must('discharge', mo.compute_discharge, x, y)
    qs = [q1[0], q1[1]]
    for f in (mo.compute_potential, mo.compute_potential_wells_only, mo.compute_discharge, mo.compute_head, mo.compute_velocity,
              mo.compute_velocity_confined, other.compute_discharge, other.compute_potential):
        c.call(f, x, y)
    c.check('model unchanged', unchanged(c, state(mo), st))
    c.check('other model unchanged', unchanged(c, state(other), ot))
    c.check('wells unchanged', unchanged(c, s['ws'], ws))
    c.check('result not shared', c.eqs(q1, qs))


def twin(c, s, what, tag):
    """a second model sharing every value of the first but one kind"""
    t = dict(s, ws=[tuple(w) for w in s['ws']], co=list(s['co']))
    if what in ('discharge', 'radius'):
        t['ws'] = [(w[0], w[1], w[2] if what == 'discharge' else w[2] + 1, c.real('%sq%d' % (tag, i)) if what == 'discharge' else w[3]) for i, w in enumerate(t['ws'])]
    elif what == 'place':
        t['ws'] = [(c.real('%sx%d' % (tag, i)), c.real('%sy%d' % (tag, i)), w[2], w[3]) for i, w in enumerate(t['ws'])]
    elif what == 'more':
        t['ws'] = t['ws'] + [(c.real(tag + 'x'), c.real(tag + 'y'), 0.5, c.real(tag + 'q'))]
    elif what == 'coef':
        t['co'] = coef_in(c, tag)
    elif what == 'origin':
        t['xo'], t['yo'] = c.real(tag + 'xo'), c.real(tag + 'yo')
    elif what in ('k', 'por', 'T', 'base'):
        t[what] = c.real(tag + what, gt=0, lt=1 if what == 'por' else None)
    return t


TWINS = ['discharge', 'radius', 'place', 'more', 'coef', 'origin', 'k', 'por', 'T', 'base']


def build(c, s):
    return c.mod('oneka.model').Model(s['base'], s['k'], s['por'], s['T'], s['ws'], s['xo'], s['yo'], c.numpy.array(s['co']))


@harness('M08', quick=[{'what': w, 'n': 1} for w in TWINS] + [{'what': w, 'n': 2} for w in ('discharge', 'more')],
         thorough=[{'what': w, 'n': n} for w in TWINS for n in (1, 2, 3)], paths=20000)
def twins(c):
    """two models which share every value (the very same numbers) but one kind - well discharges, radii, places, an additional well,
    coefficients, origin, conductivity, porosity, thickness, base - evaluated in turns at the same symbolic location: potential, discharge,
    head and velocity of each follow its own values, and the first one's are the same as before; 1-2 wells (3 thorough)."""
    x, y = point(c)
    mo, s, phi = targeted(c, c.params['n'], x, y)
    t = twin(c, s, c.params['what'], 'z')
    off_wells(c, x, y, t['ws'])
    other = build(c, t)
    last = None
    for turn, (m, v) in enumerate(((mo, s), (other, t), (mo, s))):
        when = ' (%s model)' % ('first', 'other', 'first')[turn]
        c.check('potential' + when, c.eq(c.must('potential', m.compute_potential, x, y), potential(c, x, y, v)))
        c.check('wells only' + when, c.eq(c.must('wells only', m.compute_potential_wells_only, x, y), wells_pot(c, x, y, v['ws'])))
        c.check('discharge' + when, c.eqs(c.must('discharge', m.compute_discharge, x, y), discharge(c, x, y, v)))
        if c.params['what'] in ('k', 'por', 'T', 'base', 'radius'):
            inversion(c, m, v, phi, x, y, when)
            speeds(c, m, dict(v, q=s['q']), phi, x, y, when)


@harness('M08', quick=[{'kind': k} for k in ('confined', 'mixed')], thorough=[{'kind': k} for k in REGIMES], validate=3)
def fit_isolated(c):
    """a fit leaves the caller's observations and wells, the aquifer and an independently built second model unchanged, and returned
    results of an earlier fit do not change with a later one or with edits of the model; 6 observations, 1 well."""
    mo, s = sound_model(c, 1)
    other, so = make(c, 1, tag='q', coef_form='array')
    obs = sound_observations(c, s, 6, c.params['kind'])
    snap, ot, st = snapshot(obs), state(other), state(mo)
    ev, cov = c.must('fit', mo.fit_regional_flow, obs, 0.5, -0.25)
    kept = [v for v in c.numpy.reshape(ev, [6])]
    c.check('observations unchanged', unchanged(c, obs, snap))
    c.check('aquifer and wells unchanged', unchanged(c, state(mo)[:5], st[:5]))
    c.check('other model unchanged', unchanged(c, state(other), ot))
    mo.coef[0] = 17.0
    mo.coef[5] = -3.0
    c.check('returned estimate is the caller\'s own', c.eqs(c.numpy.reshape(ev, [6]), kept))
    mo.coef = c.numpy.array(kept)
    mo.fit_regional_flow(obs, 0.25, 0.75)
    c.check('returned estimate survives a refit', c.eqs(c.numpy.reshape(ev, [6]), kept))


@harness('M08', quick=[{'n': n, 'rows': r} for n, r in ((7, 'tuples'), (13, 'lists'), (60, 'mixed'), (300, 'tuples'))], thorough=[{'n': n, 'rows': r} for n in (7, 8, 13, 20, 60, 300, 1000) for r in ('tuples', 'lists', 'mixed')], validate=3)
def fit_inputs(c):
    """a fit to 7-300 observations (1000 thorough) at fixed places with symbolic heads (confined) and discharges of seven wells leaves the
    lists of observations and wells as they were."""
    n, rows = c.params['n'], c.params['rows']
    row = {'tuples': lambda r, i: tuple(r), 'lists': lambda r, i: list(r), 'mixed': lambda r, i: list(r) if i % 3 else tuple(r)}[rows]
    T, base = c.exact(6.0), c.exact(12.5)
    ws = [row((c.exact(900.0 - 37 * i), c.exact(i * i * 3.5 - 60), 0.25, c.real('q%d' % i, -50, 50, soft=(-8, 8))), i) for i in range(7)]
    obs = [row((c.exact((i * 7) % 23 * 9.0 - 100 - i / 4), c.exact((i * 11) % 19 * 8.0 - 70 + i / 8), base + (c.real('h%d' % i, 6, 14) if i % 5 == 2 and i < 40 else c.exact(6 + (i * 5) % 32 / 4)),
                c.exact([0.5, 1.0, 0.25, 2.0][i % 4])), i) for i in range(n)]
    mo = c.mod('oneka.model').Model(base, c.exact(2.0), 0.25, T, ws)
    o0, w0 = snapshot(obs), snapshot(ws)
    c.must('fit', mo.fit_regional_flow, obs, c.exact(9.0), c.exact(-18.0))
    c.check('observations unchanged', unchanged(c, obs, o0))
    c.check('wells unchanged', unchanged(c, ws, w0))


@harness('M08', quick=[{'form': f} for f in ('default', 'array', 'list', 'column', 'assigned')])
def fresh_start(c):
    """a model created without coefficients has zero regional flow after an earlier model (created without coefficients, with an array,
    a list, a column, or assigned later) had its coefficients edited in place; editing one model's coefficients never reaches the array
    given to it or another model given the same array."""
    M = c.mod('oneka.model').Model
    np = c.numpy
    base, k, por, T = aquifer(c)
    form = c.params['form']
    v = coef_in(c)
    i = c.choice('i', 6)
    w = c.real('w')
    src = {'array': np.array(v), 'list': list(v), 'column': np.array([[u] for u in v]), 'assigned': np.array(v), 'default': None}[form]
    if form == 'default':
        a, b = M(base, k, por, T, []), M(base, k, por, T, [])
        v = [0.0] * 6
    elif form == 'assigned':
        a, b = M(base, k, por, T, []), M(base, k, por, T, [])
        a.coef = src
        b.coef = src
    else:
        a, b = M(base, k, por, T, [], 0, 0, src), M(base, k, por, T, [], 0, 0, src)
    a.coef[i] = w
    new = M(base, k, por, T, [])
    x, y = point(c)
    c.check('new model starts at zero', c.eqs(new.coef, [0] * 6))
    c.check('new model has no regional flow', c.and_(c.eq(new.compute_potential(x, y), 0), c.eqs(new.compute_discharge(x, y), [0, 0])))
    c.check('sibling unaffected', c.eqs(b.coef, v))
    c.check('the edit took effect', c.eq(a.coef[i], w))
    if src is not None:
        c.check('argument unaffected', c.eqs(np.reshape(np.asarray(src), [6]), v))
