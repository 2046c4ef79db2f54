"""Wrong shapes and values are rejected without side effects, right ones are accepted."""
import numpy as np
from filterpy import kalman as K
from filterpy.common import (reshape_z, inv_diagonal, kinematic_kf, kinematic_state_transition,
                             Q_discrete_white_noise, Q_continuous_white_noise)
from filterpy.gh import GHFilterOrder, optimal_noise_smoothing, least_squares_parameters  # noqa: F401
from filterpy.gh import critical_damping_parameters
from filterpy.leastsq import LeastSquaresFilter
from filterpy.memory import FadingMemoryFilter
from vlib.harness import Sub, Violation, close, require, raises, same
from vlib import lin

PROPERTY = 'H02'
RULE = ('Random dimensions with every nesting and orientation of a measurement, matrices of right or '
        'wrong shape for the dimension check (as attributes or arguments), wrong-size measurements and '
        'invalid values for constructors, setters and helpers; an acceptance oracle says which must '
        'pass, a state snapshot that a rejection changes nothing. Non-trivial: a rejected input, or '
        'more than one dimension.')


# ------------------------------------------------------------- reshape_z
def gen_reshape(g):
    k = g.int(1, 5)
    shape = g.choice([(), (k,), (1, k), (k, 1), (1, 1, k), (1, k, 1), (k, 2), (2, k), (k + 1,), (1, k + 1),
                      (k + 1, 1), (2, 2), (k, k)])
    return {'k': k, 'shape': list(shape), 'v': g.floats(50, 9.), 'ndim': g.choice([0, 1, 2]),
            'form': g.choice(['array', 'list', 'int', 'tuple'])}


def tup(a):
    return tuple(tup(q) for q in a) if isinstance(a, list) else a


def check_reshape(c, ctx):
    k, shape = c['k'], tuple(c['shape'])
    size = int(np.prod(shape)) if shape else 1
    a = c['v'][:size].reshape(shape)
    if c['form'] == 'int':
        a = np.round(a).astype(int)
    z = a.copy() if c['form'] in ('array', 'int') else a.tolist()
    if c['form'] == 'tuple':
        z = tup(z)
    ok = size == k and len(shape) <= 2 and (len(shape) < 2 or 1 in shape)
    if not ok:
        raises(lambda: reshape_z(z, k, c['ndim']), ValueError, 'reshape_z of shape %s for dim_z=%d' % (shape, k))
        ctx.label('rejected')
        ctx.nt()
        return
    r = reshape_z(z, k, c['ndim'])
    want = {2: (k, 1), 1: (k,), 0: () if k == 1 else (k, 1)}[c['ndim']]
    require(np.shape(r) == want, 'reshape_z of shape %s for dim_z=%d and a state of %d dimensions has shape %s, '
            'expected %s', shape, k, c['ndim'], np.shape(r), want)
    close(np.ravel(r), a.ravel(), 'values of the measurement', 0.)
    ctx.label('accepted %d' % c['ndim'])
    ctx.nt(k > 1)


# ------------------------------------------------------------- test_matrix_dimensions
WRONG = ['none', 'none', 'none', 'x size', 'x row', 'P', 'P row', 'Q', 'F', 'H columns', 'H rows', 'H vector',
         'R', 'R vector', 'z size', 'z scalar', 'z matrix']


def gen_dims(g):
    n, m = g.int(1, 4), g.int(1, 4)
    return {'n': n, 'm': m, 'col': g.bool(), 'wrong': g.choice(WRONG), 'by': g.choice(['arg', 'attr']),
            'd': g.choice([-1, 1]), 'z': g.choice(['none', 'fit', 'other']), 'r': g.choice(['mat', 'vec', 'scalar'])}


def check_dims(c, ctx):
    n, m, w = c['n'], c['m'], c['wrong']
    f = K.KalmanFilter(n, m)
    x = np.arange(1., n + 1)
    f.x = x.reshape(-1, 1) if c['col'] else x
    M = {'F': np.eye(n) * 2, 'Q': np.eye(n) * 3, 'H': np.ones((m, n)),
         'R': {'mat': np.eye(m), 'vec': np.array([2.]), 'scalar': 2.}[c['r'] if m == 1 else 'mat']}
    P = np.eye(n) * 5
    k = n + c['d'] if n > 1 else n + 1
    q = m + c['d'] if m > 1 else m + 1
    z = None
    if c['z'] == 'fit':
        z = np.ones((m, 1)) if c['col'] else np.ones(m)
    elif c['z'] == 'other' and m == 1:
        z = [3., np.array(3.), np.array([3.]), np.array([[3.]])][n - 1]
    if w == 'x size':
        f.x = np.ones((k, 1)) if c['col'] else np.ones(k)
    elif w == 'x row':
        f.x = np.ones((1, max(2, n)))
    elif w == 'P':
        P = np.eye(k)
    elif w == 'P row':
        P = np.ones((1, n)) if n > 1 else np.ones((1, 2))
    elif w in ('Q', 'F'):
        M[w] = np.eye(k)
    elif w == 'H columns':
        M['H'] = np.ones((m, k))
    elif w == 'H rows':
        # as many rows as R has, but not as many as the filter declares
        M['H'] = np.ones((q, n))
        M['R'] = np.eye(q)
        z = None
    elif w == 'H vector':
        M['H'] = np.ones(n)
    elif w == 'R':
        M['R'] = np.eye(q)
    elif w == 'R vector':
        M['R'] = np.ones(m) if m > 1 else np.ones(2)
    elif w == 'z size':
        z = np.ones((q, 1)) if c['col'] else np.ones(q)
    elif w == 'z scalar':
        if m == 1:
            w = 'none'
        z = 4.
    elif w == 'z matrix':
        z = np.ones((m, 2)) if c['col'] else np.ones((m, 3))
    f.P = P
    kw = {}
    for name, v in M.items():
        if c['by'] == 'attr' and name != 'R' or c['by'] == 'attr' and not np.isscalar(v):
            setattr(f, name, v)
        else:
            kw[name] = v
    if z is not None:
        kw['z'] = z
    before = {a: np.array(getattr(f, a)) for a in ('x', 'P', 'F', 'Q', 'H', 'R')}
    if w == 'none':
        f.test_matrix_dimensions(**kw)
    else:
        raises(lambda: f.test_matrix_dimensions(**kw), (AssertionError, ValueError),
               'test_matrix_dimensions with wrong %s (n=%d, m=%d, x of shape %s)' % (w, n, m, f.x.shape))
    for a, v in before.items():
        same(getattr(f, a), v, a + ' after the dimension check')
    ctx.label(w, 'column x' if c['col'] else 'flat x')
    ctx.nt(w != 'none' or n > 1)


# ------------------------------------------------------------- measurements of the wrong size
def gen_z(g):
    c = lin.model(g, 3, 3)
    c['kind'] = g.choice(['kf', 'kf steady', 'kf correlated', 'kf sequential', 'ckf', 'if', 'update', 'resid',
                          'kf H'])
    n, m = c['n'], c['m']
    bad = [(m + 1,), (m + 1, 1), (1, m + 1), (m, 2), (2, m)]
    if m > 1:
        bad += [(m - 1,), (m - 1, 1)] + [()]
    shape = g.choice(bad)
    c['badz'] = g.floats(int(np.prod(shape)) if shape else 1, 9.).reshape(shape)
    c['good'] = g.vec(m)
    c['col'] = g.bool()
    return c


def check_z(c, ctx):
    n, m, kind = c['n'], c['m'], c['kind']
    bad = c['badz']
    if bad.size == m and bad.ndim <= 2 and (bad.ndim < 2 or 1 in bad.shape):
        return
    x = c['x0'].reshape(-1, 1) if c['col'] else c['x0'].ravel()
    good = c['good'].reshape(-1, 1) if c['col'] else c['good']
    if kind == 'update':
        a, b = x.copy(), c['P0'].copy()
        raises(lambda: K.update(a, b, bad, c['R'], c['H']), ValueError, 'update with z of shape %s' % (bad.shape,))
        same(a, x, 'x passed to update')
        same(b, c['P0'], 'P passed to update')
        ctx.nt()
        return
    if kind == 'ckf':
        f = K.CubatureKalmanFilter(n, m, 1., lambda s: c['H'].dot(s), lambda s, dt: c['F'].dot(s))
        x = c['x0'].ravel()
        good = c['good']
    elif kind == 'if':
        f = K.InformationFilter(n, m)
    else:
        f = K.KalmanFilter(n, m)
    f.x = x.copy()
    if kind == 'if':
        f.P_inv, f.R_inv = np.linalg.inv(c['P0']), np.linalg.inv(c['R'])
    else:
        f.P, f.R = c['P0'].copy(), c['R'].copy()
    f.Q = c['Q'] + np.eye(n)
    if kind != 'ckf':
        f.F = np.eye(n)
    if kind != 'ckf':
        f.H = c['H'].copy()

    if kind == 'ckf':
        f.predict()
    if kind == 'kf steady':
        f.K = np.ones((n, m))
    if kind == 'kf sequential' and m < 2:
        return
    step = {'kf': lambda z: f.update(z), 'kf steady': lambda z: f.update_steadystate(z),
            'kf correlated': lambda z: f.update_correlated(z), 'ckf': lambda z: f.update(z),
            'if': lambda z: f.update(z), 'resid': lambda z: f.residual_of(z),
            'kf H': lambda z: f.update(z, R=c['R'], H=c['H']),
            'kf sequential': lambda z: f.update_sequential(0, z, R_i=c['R'], H_i=c['H'])}[kind]
    keep = {}
    for a in ('x', 'x_prior', 'x_post', 'P', 'P_prior', 'P_post', 'P_inv', 'z', 'K', 'F', 'H', 'Q', 'R'):
        if hasattr(f, a):
            try:
                keep[a] = np.array(getattr(f, a))
            except Exception:
                pass
    raises(lambda: step(bad.copy()), (ValueError, TypeError, AssertionError), '%s with z of shape %s for dim_z=%d' % (kind, bad.shape, m))
    est = [a for a in keep if a in ('x', 'x_prior', 'x_post', 'P', 'P_prior', 'P_post', 'P_inv')]
    for a in est + (['F', 'H', 'Q', 'R'] if kind != 'ckf' else ['Q', 'R']):
        if a in keep:
            same(getattr(f, a), keep[a], '%s after a rejected measurement (%s)' % (a, kind))
    step(good)                     # and the right size is accepted
    ctx.label(kind)
    ctx.nt()


# ------------------------------------------------------------- setters and constructors
def gen_bad(g):
    n = g.int(1, 4)
    return {'n': n, 'k': g.choice(sorted(BAD)), 'v': g.logfloat(.01, 10.), 'i': g.int(0, n - 1), 'C': g.spd(n),
            'b': g.int(1, 3), 'mode': g.choice(['neg', 'indef'])}


def notpd(c):
    C = c['C'].copy()
    if c['mode'] == 'neg':
        return -C
    i = c['i']
    C[i, i] = -c['v']
    return C


def setter(make, name, value, exc, reads):
    def run(c):
        f = make(c)
        v = value(c)
        keep = {r: np.array(getattr(f, r)) for r in reads}
        raises(lambda: setattr(f, name, v), exc, 'setting %s to %r' % (name, np.asarray(v).tolist()))
        for r, k in keep.items():
            same(np.array(getattr(f, r)), k, '%s after %s was rejected' % (r, name))
    return run


def sr(c):
    f = K.SquareRootKalmanFilter(c['n'], c['n'])
    f.P, f.Q, f.R = c['C'] * 2, c['C'] * 3, c['C'] * 4
    return f


def call(fn, exc=ValueError):
    def run(c):
        raises(lambda: fn(c), exc, 'call')
    return run


def kfn(n, m=1):
    return K.KalmanFilter(n, m)


def pair(c):
    return [np.ones((c['n'], 1))] * (2 + c['b']), [np.eye(c['n'])] * 2


def imm_shapes(c):
    return K.IMMEstimator([kfn(c['n']), kfn(c['n'] + c['b'])], [.5, .5], np.eye(2))


def ukf(c, m=2):
    n = c['n']
    f = K.UnscentedKalmanFilter(n, m, 1., lambda x: np.zeros(m), lambda x, dt: x, K.MerweScaledSigmaPoints(n, .5, 2., 1.))
    return f


def sigma(kind):
    def run(c):
        n = c['n']
        p = {'m': lambda: K.MerweScaledSigmaPoints(n, .5, 2., 1.), 'j': lambda: K.JulierSigmaPoints(n, 1.),
             's': lambda: K.SimplexSigmaPoints(n)}[kind]()
        return p.sigma_points(np.zeros(n + c['b']), np.eye(n + c['b']))
    return run


def enkf(**kw):
    def run(c):
        a = dict(x=np.zeros(c['n']), P=np.eye(c['n']), dim_z=1, dt=1., N=5, hx=None, fx=None)
        a.update({k: v(c) for k, v in kw.items()})
        return K.EnsembleKalmanFilter(**a)
    return run


CTOR = {'kf': lambda *a: K.KalmanFilter(*a), 'if': lambda *a: K.InformationFilter(*a), 'sr': lambda *a: K.SquareRootKalmanFilter(*a),
        'fade': lambda *a: K.FadingKalmanFilter(1.1, *a)}

BAD = {
    'sr P': setter(sr, 'P', notpd, np.linalg.LinAlgError, ['P', 'P1_2', 'Q', 'R']),
    'sr Q': setter(sr, 'Q', notpd, np.linalg.LinAlgError, ['Q', 'Q1_2', 'P', 'R']),
    'sr R': setter(sr, 'R', notpd, np.linalg.LinAlgError, ['R', 'R1_2', 'P', 'Q']),
    'alpha low': setter(lambda c: kfn(c['n']), 'alpha', lambda c: 1. - c['v'] / 20., ValueError, ['alpha', 'P']),
    'alpha array': setter(lambda c: kfn(c['n']), 'alpha', lambda c: np.array([2., 3.]), ValueError, ['alpha']),
    'if F': setter(lambda c: K.InformationFilter(c['n'], 1), 'F', lambda c: np.zeros((c['n'], c['n'])),
                   np.linalg.LinAlgError, ['F', 'P_inv', 'x']),
    'imm one': call(lambda c: K.IMMEstimator([kfn(2)], [1.], np.eye(1))),
    'imm shapes': call(imm_shapes),
    'mmae lengths': call(lambda c: K.MMAEFilterBank([kfn(2)] * 2, [1. / (2 + c['b'])] * (2 + c['b']), 2)),
    'mmae dim': call(lambda c: K.MMAEFilterBank([kfn(2)] * 2, [.5, .5], 1 - c['b'])),
    'kf rts': call(lambda c: kfn(c['n']).rts_smoother(*pair(c))),
    'proc rts': call(lambda c: K.rts_smoother(pair(c)[0], pair(c)[1], [np.eye(c['n'])] * 9, [np.eye(c['n'])] * 9)),
    'ukf rts': call(lambda c: ukf(c).rts_smoother(np.ones((3, c['n'])), np.array([np.eye(c['n'])] * 2))),
    'ukf scalar zs': call(lambda c: ukf(c).batch_filter(3.), TypeError),
    'ukf z size': call(lambda c: ukf(c).batch_filter([np.zeros(2 + c['b'])] * 2), TypeError),
    'ukf z vector': call(lambda c: ukf(c, 1).batch_filter([np.zeros(1 + c['b'])] * 2), TypeError),
    'sigma merwe': call(sigma('m')), 'sigma julier': call(sigma('j')), 'sigma simplex': call(sigma('s')),
    'enkf dim_z': call(enkf(dim_z=lambda c: 1 - c['b'])), 'enkf N': call(enkf(N=lambda c: 1 - c['b'])),
    'enkf x': call(enkf(x=lambda c: np.zeros((c['n'], 1)))),
    'gh order': call(lambda c: GHFilterOrder(0., 1., 2 + c['b'], .5, .1, .1)),
    'gh order negative': call(lambda c: GHFilterOrder(0., 1., -c['b'], .5, .1, .1)),
    'memory order': call(lambda c: FadingMemoryFilter(0., 1., 2 + c['b'], .5)),
    'memory order negative': call(lambda c: FadingMemoryFilter(0., 1., -c['b'], .5)),
    'lsq order': call(lambda c: LeastSquaresFilter(1., 2 + c['b'])),
    'lsq order negative': call(lambda c: LeastSquaresFilter(1., -c['b'])),
    'critical theta': call(lambda c: critical_damping_parameters(1. + c['v'], 2)),
    'critical theta negative': call(lambda c: critical_damping_parameters(-c['v'], 2)),
    'critical order': call(lambda c: critical_damping_parameters(.5, 3 + c['b'])),
    'inv_diagonal': call(lambda c: inv_diagonal(np.ones((c['n'], c['n'] + c['b'])))),
    'inv_diagonal vector': call(lambda c: inv_diagonal(np.ones(c['n']))),
    'Q dim low': call(lambda c: Q_discrete_white_noise(1)),
    'Q dim high': call(lambda c: Q_discrete_white_noise(4 + c['b'])),
    'Qc dim low': call(lambda c: Q_continuous_white_noise(1)),
    'Qc dim high': call(lambda c: Q_continuous_white_noise(4 + c['b'])),
    'kinematic order': call(lambda c: kinematic_state_transition(-c['b'], 1.)),
    'kinematic fraction': call(lambda c: kinematic_state_transition(c['n'] + .5, 1.)),
    'kinematic dim': call(lambda c: kinematic_kf(1 - c['b'], 1)),
    'kinematic_kf order': call(lambda c: kinematic_kf(1, -c['b'])),
    'kinematic dim_z': call(lambda c: kinematic_kf(1, 1, dim_z=1 - c['b'])),
}
for _k, _f in CTOR.items():
    for _a, _args in (('dim_x', lambda c: (1 - c['b'], 1)), ('dim_z', lambda c: (c['n'], 1 - c['b'])),
                      ('dim_u', lambda c: (c['n'], 1, -c['b']))):
        BAD['%s %s' % (_k, _a)] = call(lambda c, f=_f, args=_args: f(*args(c)), (ValueError, AssertionError))


def check_bad(c, ctx):
    try:
        BAD[c['k']](c)
    except Violation as v:
        raise Violation('%s: %s' % (c['k'], v))
    ctx.label(c['k'])
    ctx.nt()


def all_bad():
    for k in sorted(BAD):
        for b, v in ((1, .5), (2, 1e-3)):
            for mode in ('neg', 'indef'):
                yield {'n': 1 + b, 'k': k, 'v': v, 'i': b - 1, 'C': np.eye(1 + b) * 1.5, 'b': b, 'mode': mode}


SUBS = [Sub('reshape', gen_reshape, check_reshape, quick=1500),
        Sub('dimensions', gen_dims, check_dims, quick=1500),
        Sub('measurement', gen_z, check_z, quick=800),
        Sub('invalid', gen_bad, check_bad, quick=500, cases=all_bad)]
