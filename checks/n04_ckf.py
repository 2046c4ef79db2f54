"""Cubature Kalman filter: every step is the third-degree cubature rule."""
import numpy as np
from filterpy.kalman import CubatureKalmanFilter
from filterpy.kalman.CubatureKalmanFilter import spherical_radial_sigmas, ckf_transform
from vlib import lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'N04'
RULE = ('Random nonlinear models with callback arguments, angle-aware mean and residual functions, '
        'per-call time step and noise, and histories; every step is recomputed from the filter\'s '
        'own estimate before it; plus the point and transform functions alone; non-trivial: at least '
        'one update of a nonlinear model (or dimension 2 and more).')


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


def cub(x, P):
    n = len(x)
    L = np.linalg.cholesky(P) * np.sqrt(n)
    return np.array([x + L[:, i] for i in range(n)] + [x - L[:, i] for i in range(n)])


def res(a, b):
    d = np.array(a, dtype=float) - b
    d[0] = wrap(d[0])
    return d


def mean(s, w):
    m = np.dot(w, s)
    m[0] = np.arctan2(np.dot(w, np.sin(s[:, 0])), np.dot(w, np.cos(s[:, 0])))
    return m


def moments(s, Q, angle):
    N = len(s)
    x = s.sum(axis=0) / N
    if angle:
        a = np.exp(1j * s[:, 0]).sum() / N
        if abs(a) < 1e-2:
            return None
        x[0] = np.angle(a)
        d = np.array([res(v, x) for v in s])
        if np.any(np.abs(np.abs(d[:, 0]) - np.pi) < 1e-6):
            return None
    else:
        d = s - x
    return x, d.T.dot(d) / N + Q, d


def gen(g):
    n, m = g.dim(1, 5, 8), g.dim(1, 3, 5)
    c = {'n': n, 'm': m, 'x0': g.vec(n, 4.), 'P0': g.spd(n, 1e-2, 4.), 'Q': g.spd(n, 1e-2, 2.),
         'R': g.spd(m, 1e-2, 10.), 'F': g.trans(n), 'H': g.mat(m, n), 'dt': g.choice([1., .1, .5]),
         's': g.choice([0., .5, 1., 2.]), 'angle_x': g.prob(3), 'angle_z': g.prob(3), 'ops': []}
    for _ in range(g.int(1, 6)):
        o = {'dt': g.choice([None, None, .3, 2., 0.]), 'posdt': g.bool(),
             'fxa': g.choice([None, None, 'bare', 'tuple1', 'tuple2', 'list', 'array']),
             'z': None if g.prob(1) else g.vec(m, 6.),
             'zform': g.choice(['array', 'list', 'col', 'scalar']),
             'R': [None, g.spd(m, 1e-2, 10.), g.logfloat(1e-2, 10.), 0.][g.choice([0, 0, 0, 1, 1, 2, 2, 3])],
             'hxa': g.choice([None, None, 'bare', 'tuple1', 'tuple2', 'list', 'array']),
             'set': g.choice([None, None, 'x', 'P', 'Q', 'R'])}
        if o['set']:
            o['v'] = {'x': lambda: g.vec(n, 4.), 'P': lambda: g.spd(n, 1e-2, 4.),
                      'Q': lambda: g.spd(n, 1e-2, 2.), 'R': lambda: g.spd(m, 1e-2, 10.)}[o['set']]()
        c['ops'].append(o)
    return c


ARGS = {None: (), 'bare': (.5,), 'tuple1': (.5,), 'tuple2': (-2., .7),
        'list': ([.5, -1.],), 'array': (np.array([2., .4]),)}


def given(kind):
    return ARGS[kind][0] if kind in ('bare', 'list', 'array') else ARGS[kind]


def regular(P):
    w = np.linalg.eigvalsh(ref.sym(P))
    return np.all(np.isfinite(w)) and w[0] > 1e-5 * max(1e-3, w[-1])


def check(c, ctx):
    n, m = c['n'], c['m']
    log = []

    def fx(x, dt, a=0., b=1.):
        a, b = (a, b) if np.isscalar(a) else a
        log.append((dt, a, b))
        return c['F'].dot(x) + dt * c['s'] * np.sin(b * x + a)

    def hx(x, a=1., b=0.):
        a, b = (a, b) if np.isscalar(a) else a
        return a * c['H'].dot(x) + c['s'] * np.cos(c['H'].dot(x)) + b

    kw = {}
    if c['angle_x']:
        kw.update(x_mean_fn=mean, residual_x=res)
    if c['angle_z']:
        kw.update(z_mean_fn=mean, residual_z=res)
    f = CubatureKalmanFilter(n, m, c['dt'], hx, fx, **kw)
    f.x, f.P, f.Q, f.R = c['x0'].copy(), c['P0'].copy(), c['Q'].copy(), c['R'].copy()
    done = False
    for o in c['ops']:
        if o['set']:
            setattr(f, o['set'], o['v'].copy())
        x, P = np.array(f.x, dtype=float).ravel(), np.array(f.P)
        if not regular(P):
            ctx.label('ended: covariance nearly singular')
            break
        dt = c['dt'] if o['dt'] is None else o['dt']
        sf = np.array([fx(v, dt, *ARGS[o['fxa']]) for v in cub(x, P)])
        r = moments(sf, f.Q, c['angle_x'])
        if r is None:
            break
        px, pP, _ = r
        k = {} if o['fxa'] is None else {'fx_args': given(o['fxa'])}
        if o['dt'] is not None and o['posdt']:
            f.predict(o['dt'], **k)
        elif o['dt'] is not None:
            f.predict(dt=o['dt'], **k)
        else:
            f.predict(**k)
        ss = max(1., np.abs(sf).max())
        close(f.x, px, 'state after the prediction', 1e-9, ss, flat=True)
        close(f.P, pP, 'covariance after the prediction', 1e-9, ss ** 2)
        close(f.x_prior, px, 'recorded prior', 1e-9, ss, flat=True)
        close(f.P_prior, pP, 'recorded prior covariance', 1e-9, ss ** 2)
        x, P = np.array(f.x, dtype=float).ravel(), np.array(f.P)
        if o['z'] is None:
            f.update(None)
            same(np.ravel(f.x), x, 'state after a missing measurement')
            continue
        R = f.R if o['R'] is None else lin.full(o['R'], m)
        p = cub(x, P)
        sh = np.array([hx(v, *ARGS[o['hxa']]) for v in p])
        r = moments(sh, R, c['angle_z'])
        if r is None:
            break
        zp, S, dz = r
        if not regular(S):
            ctx.label('ended: innovation covariance nearly singular')
            break
        dx = np.array([res(v, x) for v in p]) if c['angle_x'] else p - x
        if c['angle_x'] and np.any(np.abs(np.abs(dx[:, 0]) - np.pi) < 1e-6):
            break
        C = dx.T.dot(dz) / len(p)
        K = np.linalg.solve(S, C.T).T
        y = res(o['z'], zp) if c['angle_z'] else o['z'] - zp
        if c['angle_z'] and abs(abs(y[0]) - np.pi) < 1e-6:
            break
        ex, eP = x + K.dot(y), P - K.dot(S).dot(K.T)
        z = o['z'].copy()
        if o['zform'] == 'list':
            z = [float(v) for v in z]
        elif o['zform'] == 'col':
            z = z.reshape(-1, 1)
        elif o['zform'] == 'scalar' and m == 1:
            z = float(z[0])
        k = {} if o['hxa'] is None else {'hx_args': given(o['hxa'])}
        if o['R'] is not None:
            k['R'] = o['R']
        f.update(z, **k)
        cond = max(1., np.linalg.cond(S))
        hs = max(1., np.abs(sh).max())
        kmax = max(1., np.abs(K).max())
        tol = 1e-9 * cond
        close(f.S, S, 'innovation covariance', tol, hs ** 2)
        close(f.y, y, 'residual', tol, hs, flat=True)
        close(f.K, K, 'gain', tol, ss * hs / np.linalg.eigvalsh(ref.sym(S))[0])
        close(f.x, ex, 'state after the update', tol * 10, max(ss, kmax * hs), flat=True)
        close(f.P, eP, 'covariance after the update', tol * 10, max(ss, kmax * hs) ** 2)
        close(f.x_post, ex, 'recorded posterior', tol * 10, max(ss, kmax * hs), flat=True)
        close(f.P_post, eP, 'recorded posterior covariance', tol * 10, max(ss, kmax * hs) ** 2)
        close(np.array(f.z, dtype=float), o['z'], 'recorded measurement', 1e-12, flat=True)
        if cond < 1e6:
            ll = ref.gauss_logpdf(y, S)
            require(abs(f.log_likelihood - ll) <= 1e-6 * (10 + abs(ll)),
                    'log-likelihood %r, expected %r', f.log_likelihood, ll)
        done = done or c['s'] > 0
        ctx.label('update', 'R' if o['R'] is not None else '', o['hxa'] or '')
    ctx.label('angle x' if c['angle_x'] else '', 'angle z' if c['angle_z'] else '', 'n%d' % n)
    ctx.nt(done)


def gen_pts(g):
    n, N = g.int(1, 6), g.int(1, 9)
    return {'n': n, 'x': g.vec(n), 'P': g.spd(n), 'col': g.bool(), 'N': N,
            'X': g.floats(n * N, 5.).reshape(N, n), 'Q': g.psd(n),
            'mean': g.choice(['none', 'none', 'angle', 'median']), 'res': g.choice(['none', 'wrap', 'double'])}


def check_pts(c, ctx):
    n = c['n']
    x = c['x'].reshape(-1, 1) if c['col'] else c['x']
    p = spherical_radial_sigmas(x.copy(), c['P'].copy())
    require(p.shape == (2 * n, n), 'cubature points have shape %s', p.shape)
    s = max(1., np.abs(p).max())
    close(p.mean(axis=0), c['x'], 'mean of the cubature points', 1e-11, s)
    d = p - c['x']
    close(d.T.dot(d) / (2 * n), c['P'], 'covariance of the cubature points', 1e-10, s * 1e-2)
    close(d[:n], -d[n:], 'pairs of cubature points', 1e-10, s)
    # scaled square-root columns: conjugate directions
    G = d[:n].dot(np.linalg.inv(c['P'])).dot(d[:n].T)
    close(G, n * np.eye(n), 'directions of the cubature points', 1e-7 * s)
    X, Q = c['X'], c['Q']
    mf = {'none': None, 'angle': mean, 'median': lambda s_, w: np.median(s_, axis=0) + w.sum()}[c['mean']]
    rf = {'none': np.subtract, 'wrap': res, 'double': lambda a, b: 2. * (a - b)}[c['res']]
    ex = X.mean(axis=0) if mf is None else mf(X, np.full(len(X), 1. / len(X)))
    eP = sum(np.outer(rf(v, ex), rf(v, ex)) for v in X) / len(X) + Q
    if mf is None and c['res'] == 'none':
        gx, gP = ckf_transform(X.copy(), Q.copy())
    else:
        gx, gP = ckf_transform(X.copy(), Q.copy(), mf, rf)
    close(gx, ex, 'transformed mean', 1e-10, 10., flat=True)
    close(gP, eP, 'transformed covariance', 1e-9, 100.)
    ctx.label(c['mean'], c['res'])
    ctx.nt(n >= 2)


SUBS = [Sub('histories', gen, check, 2000), Sub('points', gen_pts, check_pts, 800)]
