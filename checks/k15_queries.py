"""What-if queries answer what the real step would give, at every point of a history."""
import copy
import warnings
import numpy as np
from filterpy import kalman
from filterpy.hinfinity import HInfinityFilter
from vlib import filters, lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'K15'
RULE = ('Random histories with reassigned matrices, per-call overrides, missing measurements and '
        'changing alpha on every class that offers a query; before every step the query is asked, '
        'then the step is taken and compared, as is an independent recursion; non-trivial: at '
        'least two answered queries that differ from the current estimate.')

KINDS = ['kf', 'kf', 'kf', 'fkf', 'srkf', 'hinf', 'ekf']


def gen(g):
    c = lin.model(g, 4, 3)
    c['kind'] = g.choice(KINDS)
    k = c['kind']
    if k in ('srkf', 'hinf'):
        c['Q'] = g.spd(c['n'], 1e-3, 10.)
    c['alpha'] = g.choice([1., 1.02, 1.3]) if k in ('kf', 'fkf') else 1.
    c['ops'] = lin.ops(g, c, 2, 9, overrides=k == 'kf', alpha=k == 'kf',
                       forms=k == 'kf', none_z=k != 'hinf')
    return c


def make(c):
    k, n, m = c['kind'], c['n'], c['m']
    du = c['u_dim']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if k == 'hinf':
            f = HInfinityFilter(n, m, du, gamma=1e-4)
        elif k == 'fkf':
            f = kalman.FadingKalmanFilter(c['alpha'], n, m, du)
        else:
            f = {'kf': kalman.KalmanFilter, 'srkf': kalman.SquareRootKalmanFilter,
                 'ekf': kalman.ExtendedKalmanFilter}[k](n, m, du)
    f.x, f.P, f.F, f.Q = lin.shape_x(c['x0'], c['layout']), c['P0'].copy(), c['F'], c['Q']
    if k != 'ekf':
        f.H = c['H']
    if k == 'hinf':
        f.W, f.V = c['Q'] * .1, c['R']
        f.Q = c['Q'] * 1e-3
    else:
        f.R = c['R']
    if k == 'kf':
        f.alpha = c['alpha']
    if c['B'] is not None:
        f.B = c['B']
    return f


def pair(what, got, x, P, tol=1e-8):
    require(isinstance(got, tuple) and len(got) == 2, '%s is not a pair (x, P)', what)
    close(got[0], x, what + ' state', tol, max(1., np.abs(x).max()), flat=True)
    require(np.shape(got[0]) == np.shape(x), '%s state has shape %s, the step gives %s', what,
            np.shape(got[0]), np.shape(x))
    close(got[1], P, what + ' covariance', tol)


def check(c, ctx):
    k, n = c['kind'], c['n']
    f = make(c)
    H = c['H']
    alpha = c['alpha']
    asked = 0
    after = None
    for o in c['ops']:
        if o['op'] == 'set':
            a, v = o['a'], o['v']
            after = 'set'
            if a == 'alpha':
                alpha = v
            if k == 'hinf' and a == 'R':
                f.V = v
            elif k == 'hinf' and a == 'Q':
                f.W = v * .1
            elif a == 'H':
                H = v
                if k != 'ekf':
                    f.H = v
            elif a == 'x':
                f.x = lin.shape_x(v, c['layout'])
            elif a == 'Q' and k == 'srkf':
                f.Q = v + 1e-2 * np.eye(n)
            else:
                setattr(f, a, v)
            continue
        x0, P0 = np.array(f.x, dtype=float), np.array(f.P, dtype=float)
        if o['op'] == 'predict':
            kw = {q: o[q] for q in ('F', 'Q', 'B') if q in o}
            if 'u' in o:
                kw['u'] = lin.shape_x(o['u'], c['layout'])
            answer = f.get_prediction(**kw) if hasattr(f, 'get_prediction') else None
            if k == 'ekf':
                g = copy.deepcopy(f)
                g.predict_x(*([kw['u']] if 'u' in kw else []))
                answer = g.x
                close(g.P, P0, 'covariance after predict_x', 1e-12)
            f.predict(**kw)
            F = o.get('F', f.F)
            ex = F.dot(x0)
            if 'u' in o:
                ex = ex + np.dot(o.get('B', f.B), kw['u'])
            close(f.x, ex, '%s predicted state' % k, 1e-8, max(1., np.abs(ex).max()), flat=True)
            if k in ('kf', 'fkf'):
                pair('get_prediction()', answer, f.x, f.P)
                Q = lin.full(o.get('Q', f.Q), n)
                close(answer[1], alpha ** 2 * F.dot(P0).dot(F.T) + Q,
                      'get_prediction() covariance', 1e-8)
            elif answer is not None:
                close(answer, f.x, 'predicted-ahead state of ' + k, 1e-9,
                      max(1., np.abs(ex).max()))
            asked += answer is not None and np.abs(ex - x0).max() > 0
            after = 'predict'
        else:
            Hz = o.get('H', H)
            kw = {q: o[q] for q in ('H', 'R') if q in o}
            if o['z'] is None:
                if k == 'kf':
                    pair('get_update(None)', f.get_update(None), x0, P0, 0)
                f.update(None, *([lambda x: H, lambda x: H.dot(x)] if k == 'ekf' else []))
                continue
            zv = lin.zval(o['z'], o['form'])
            z = lin.make_z(o['z'], o['form']) if k == 'kf' else lin.shape_x(o['z'], c['layout'])
            y = ref.col(zv) - Hz.dot(ref.col(x0))
            sy = max(1., np.abs(y).max())
            if k == 'kf' and not kw:
                w = copy.deepcopy(z)
                got = f.get_update(z)
                same(z, w, 'measurement passed to get_update')
                xe, Pe = ref.kf_update(ref.col(x0), P0, zv, Hz, f.R)[:2]
                if after == 'predict':
                    close(f.residual_of(z), y, 'residual_of before the update', 1e-8, sy, flat=True)
                f.update(z)
                pair('get_update()', got, f.x, f.P, 1e-8)
                close(got[0], xe, 'get_update() state', 1e-6, max(1., np.abs(xe).max(), sy),
                      flat=True)
                close(got[1], Pe, 'get_update() covariance', 1e-6, 1e-3 * np.abs(P0).max())
                if after == 'predict':
                    close(f.residual_of(z), f.y, 'residual_of after the update', 1e-8, sy)
                asked += 1
            elif k in ('fkf', 'srkf', 'hinf'):
                if k == 'hinf' and np.linalg.cond(P0) > 1e6:
                    break
                r = f.residual_of(z)
                close(r, y, 'residual_of of ' + k, 1e-7, sy, flat=True)
                f.update(z)
                if k == 'srkf':
                    require(np.shape(r) == np.shape(z), 'residual_of has shape %s for a '
                            'measurement of shape %s', np.shape(r), np.shape(z))
                close(f.y, r, 'innovation of %s against residual_of' % k, 1e-7, sy, flat=True)
                asked += 1
            elif k == 'ekf':
                f.update(z, lambda x: H, lambda x: H.dot(x))
            else:
                f.update(z, **kw)
            after = 'update'
        if k != 'ekf':
            v = lin.shape_x(np.arange(1., n + 1) * .7, c['layout'])
            close(f.measurement_of_state(v), H.dot(v), 'measurement_of_state of ' + k, 1e-12)
        if np.abs(f.x).max() > 1e8 or np.abs(f.P).max() > 1e10:
            break
    ctx.label(k, c['layout'])
    ctx.nt(asked >= 2)


# ---------------------------------------------------------------- sigma-point helpers of the UKF
def gen_ukf(g):
    c = filters.model(g, 4, 3)
    c['kind'] = g.choice(['ukf_merwe', 'ukf_julier', 'ukf_simplex'])
    c['steps'] = g.int(0, 3)
    c['circ'] = g.bool()
    c['k'] = g.float(.5, 2.)
    c['dt'] = g.choice([1., .5, 2.])
    c['other'] = g.bool()
    c['x'], c['z'] = g.vec(c['n'], 5.), g.vec(c['m'], 5.)
    c['zs'] = [g.vec(c['m'], 10.) for _ in range(4)]
    return c


def check_ukf(c, ctx):
    ad = filters.A(c['kind'], c)
    f = ad.f
    F, H = c['F'], c['H']
    f.fx = lambda x, dt, k=1.: F.dot(x) * k * dt
    for z in c['zs'][:c['steps']]:
        f.predict()
        f.update(z)
    if c['circ']:       # whatever residual the user supplies
        f.residual_x = lambda a, b: 2. * np.subtract(a, b)
        f.residual_z = lambda a, b: np.subtract(a, b) * .5
    x, P = np.array(f.x), np.array(f.P)
    S = f.points_fn.sigma_points(x, P)
    st = {k: copy.deepcopy(getattr(f, k)) for k in ('x', 'P', 'x_prior', 'P_prior', 'x_post',
                                                    'P_post', 'Q', 'R', 'K', 'S', 'y')}
    if c['other']:
        f.compute_process_sigmas(c['dt'], fx=lambda x, dt, k=1.: x * k + dt, k=c['k'])
        want = S * c['k'] + c['dt']
    else:
        f.compute_process_sigmas(c['dt'], k=c['k'])
        want = S.dot(F.T) * c['k'] * c['dt']
    close(f.sigmas_f, want, 'compute_process_sigmas', 1e-9, max(1., np.abs(want).max()))
    sf = np.array(f.sigmas_f)
    sh = sf.dot(H.T)
    got = f.cross_variance(c['x'], c['z'], sf, sh)
    s = 1.
    dx, dz = sf - c['x'], sh - c['z']
    if c['circ']:
        dx, dz = 2. * dx, .5 * dz
    want = sum(w * np.outer(a, b) for w, a, b in zip(f.Wc, dx, dz))
    s = sum(abs(w) * np.abs(a).max() * np.abs(b).max() for w, a, b in zip(f.Wc, dx, dz))
    close(got, want, 'cross_variance', 1e-9, max(1., s))
    for k, v in st.items():
        same(getattr(f, k), v, 'query changed attribute ' + k)
    # several simultaneous measurements: the sigmas recomputed between updates make the second
    # update a plain Bayes update of the first posterior
    if not c['circ']:
        f.fx = lambda x, dt: F.dot(x)
        f.predict()
        x, P = np.array(f.x), np.array(f.P)
        for i in range(2):
            f.compute_process_sigmas(0., fx=lambda x, dt: x)
            f.update(c['zs'][i])
            xe, Pe = ref.kf_update(ref.col(x), P, c['zs'][i], H, c['R'])[:2]
            sx = max(1., np.abs(xe).max(), np.abs(c['zs'][i]).max())
            close(f.x, xe, 'state after update %d with recomputed sigma points' % i, 1e-5, sx,
                  flat=True)
            close(f.P, Pe, 'covariance after update %d with recomputed sigma points' % i, 1e-5,
                  1e-3 * np.abs(P).max())
            x, P = np.array(f.x), np.array(f.P)
    ctx.label(c['kind'], 'circ' if c['circ'] else 'plain')
    ctx.nt(c['steps'] >= 1)


SUBS = [Sub('steps', gen, check, 2500), Sub('sigmas', gen_ukf, check_ukf, 600)]
