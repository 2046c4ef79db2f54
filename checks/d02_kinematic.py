"""Kinematic models move polynomial trajectories exactly and the factory builds matching filters."""
import math
import numpy as np
from filterpy.common import kinematic_state_transition, kinematic_kf
from filterpy.kalman import KalmanFilter, SquareRootKalmanFilter, FadingKalmanFilter
from vlib.harness import Sub, Violation, close, require, raises

PROPERTY = 'D02'
RULE = ('Every order 0-10 and dimension 1-4, random time steps, orderings, measurement sizes, filter '
        'classes and polynomial trajectories, against closed-form motion; non-trivial: order at '
        'least 1 and a time step other than zero.')


def deriv(a, t):
    """value and derivatives at t of the polynomial with derivatives a at 0"""
    n = len(a)
    return np.array([sum(a[j] * t ** (j - i) / math.factorial(j - i) for j in range(i, n))
                     for i in range(n)])


def gen(g):
    o = g.int(7, 10) if g.prob(1) else g.int(0, 6)
    dim = g.int(1, 4)
    return {'order': o, 'dim': dim, 'dim_z': g.int(1, 4), 'by_dim': g.bool(),
            'dt': g.choice([1., .1, .5, 2., 1, 3, 0., -1.]) if g.bool() else g.float(.01, 3.),
            'dt2': g.float(.01, 2.), 'a': [g.vec(o + 1, 4.) for _ in range(dim)],
            'kf': g.choice(['none', 'none', 'kf', 'srkf', 'fkf']), 'call': g.bool(),
            'bad': g.choice([-1, -3, .5, 2.5])}


def check(c, ctx):
    o, dim, dt, dz = c['order'], c['dim'], c['dt'], c['dim_z']
    F = np.asarray(kinematic_state_transition(o, dt), dtype=float)
    require(F.shape == (o + 1, o + 1), 'transition matrix has shape %s', F.shape)
    for i in range(o + 1):
        for j in range(o + 1):
            t = float(dt) ** (j - i) / math.factorial(j - i) if j >= i else 0.
            require(abs(F[i, j] - t) <= 1e-13 * abs(t), 'entry %d, %d of order %d is %r, not %r', i, j, o,
                    float(F[i, j]), t)
    for a in c['a']:
        e = deriv(a, float(dt))
        close(F.dot(a), e, 'motion over one step', 1e-10, np.abs(a).max() + 1.)
        # same polynomial seen from the moved point
        close(kinematic_state_transition(o, c['dt2']).dot(F).dot(a), deriv(a, dt + c['dt2']),
              'motion over two steps', 1e-9, (np.abs(e).max() + 1.) * 50.)
    close(kinematic_state_transition(o, dt + c['dt2']),
          kinematic_state_transition(o, c['dt2']).dot(F), 'composed steps', 1e-9, 1.)
    raises(lambda: kinematic_state_transition(c['bad'], 1.), ValueError, 'order %r' % c['bad'])
    # factory
    n = dim * (o + 1)
    if c['kf'] == 'none':
        f = kinematic_kf(dim, o, dt, dz, c['by_dim']) if c['call'] else \
            kinematic_kf(dim=dim, order=o, dt=dt, dim_z=dz, order_by_dim=c['by_dim'])
        require(isinstance(f, KalmanFilter), 'factory returned %r', type(f))
    else:
        k = {'kf': lambda: KalmanFilter(n, dz), 'srkf': lambda: SquareRootKalmanFilter(n, dz),
             'fkf': lambda: FadingKalmanFilter(1., n, dz)}[c['kf']]()
        f = kinematic_kf(dim, o, dt, dim_z=dz, order_by_dim=c['by_dim'], kf=k)
        require(f is k, 'the given filter was not used')
    E = np.kron(np.eye(dim), F) if c['by_dim'] else np.kron(F, np.eye(dim))
    close(f.F, E, 'transition matrix of the filter', 1e-12)
    require(np.shape(f.H) == (dz, n) and np.shape(f.R) == (dz, dz), 'H has shape %s, R %s',
            np.shape(f.H), np.shape(f.R))
    for name in 'PQR':
        m = np.asarray(getattr(f, name), dtype=float)
        close(m, np.eye(dz if name == 'R' else n), name + ' of the filter', 1e-15)
    pos = [j * (o + 1) if c['by_dim'] else j for j in range(dim)]
    check_h(f, dim, dz, n, pos)
    X = np.array(c['a'])
    x = (X if c['by_dim'] else X.T).reshape(-1, 1)
    f.x = x.copy()
    f.predict()
    moved = np.array([deriv(a, float(dt)) for a in c['a']])
    e = (moved if c['by_dim'] else moved.T).reshape(-1, 1)
    close(f.x, e, 'state predicted by the factory filter', 1e-10, np.abs(x).max() + 1.)
    f.update(np.zeros((dz, 1)))
    require(np.shape(f.x) == (n, 1) and np.shape(f.P) == (n, n), 'shapes after an update: %s %s',
            np.shape(f.x), np.shape(f.P))
    for kw in ({'dim': 0, 'order': 1}, {'dim': 1, 'order': -1}, {'dim': 1, 'order': 1, 'dim_z': 0}):
        raises(lambda: kinematic_kf(**kw), ValueError, 'kinematic_kf(%r)' % kw)
    ctx.label('order%d' % o, 'dim%d' % dim, c['kf'], 'by dim' if c['by_dim'] else 'by derivative')
    ctx.nt(o >= 1 and dt != 0)


def selects(H, dim, dz, n, pos):
    """one position per measurement component"""
    E = np.zeros((dz, n))
    for i in range(dz):
        E[i, pos[i % dim]] = 1.
    return np.array_equal(np.asarray(H, dtype=float), E)


def check_h(f, dim, dz, n, pos):
    if selects(f.H, dim, dz, n, pos):
        return
    # listed finding kinematic-h: with several dimensions every row sums all positions
    E = np.zeros((dz, n))
    E[:, pos] = 1.
    close(f.H, E, 'measurement matrix of the filter', 1e-15)


def known_h():
    f = kinematic_kf(dim=2, order=1, dim_z=2)
    if not selects(f.H, 2, 2, 4, [0, 2]):
        raise Violation('kinematic_kf(2, 1, dim_z=2).H is %r' % (f.H.tolist(),))


KNOWN = {'kinematic-h': known_h}
SUBS = [Sub('models', gen, check, 1500)]
