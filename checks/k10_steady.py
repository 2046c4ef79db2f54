"""Steady-state operation: constant gain == full filter at the Riccati fixed point."""
import numpy as np
from filterpy import kalman
from filterpy.kalman import KalmanFilter
from scipy.linalg import solve_discrete_are
from vlib import filters, lin, ref
from vlib.harness import Sub, close, same, require

PROPERTY = 'K10'
RULE = ('Random gains and histories of the constant-gain operations against x=Fx+Bu, '
        'x=x+K(z-Hx) (class and functions), and convergence of the full filter to the algebraic '
        'Riccati solution; non-trivial: a control input or measurement that moved the state.')


def gen(g):
    c = lin.model(g, 4, 3)
    c['K'] = g.mat(c['n'], c['m'], .5)
    c['hist'] = []
    for _ in range(g.int(1, 7)):
        c['hist'].append({'u': g.vec(c['u_dim'], 4.) if c['u_dim'] and g.bool() else None,
                          'Barg': g.bool(), 'p': g.prob(7),
                          'z': None if g.prob(1) else g.vec(c['m'], 20.),
                          'form': lin.z_forms(g, c['m'], c['layout'])})
    c['fun'] = g.bool()
    return c


def check(c, ctx):
    lay = c['layout']
    x = ref.col(c['x0'])
    f = filters.A('kf', c).f
    f.K = c['K'].copy()
    X = lin.shape_x(c['x0'], lay)
    moved = False
    B2 = None if c['B'] is None else c['B'] * 2.
    for h in c['hist']:
        if h['p']:
            u = lin.shape_u(h['u'], lay)
            xe = c['F'].dot(x)
            if u is not None:
                xe = xe + (B2 if h['Barg'] else c['B']).dot(ref.col(h['u']))
            if c['fun']:
                X = kalman.predict_steadystate(X, c['F']) if u is None else \
                    kalman.predict_steadystate(X, c['F'], u, B2 if h['Barg'] else c['B'])
            else:
                if u is None:
                    f.predict_steadystate()
                elif h['Barg']:
                    f.predict_steadystate(u, B2)
                else:
                    f.predict_steadystate(u=u)
                same(f.P, c['P0'], 'covariance')
                same(f.x_prior, f.x, 'recorded prior')
            x = xe
        z = None if h['z'] is None else lin.make_z(h['z'], h['form'])
        xb = x
        if h['z'] is not None:
            y = ref.col(lin.zval(h['z'], h['form'])) - c['H'].dot(x)
            x = x + c['K'].dot(y)
            moved = moved or np.abs(x - xb).max() > 0
        if c['fun']:
            X = kalman.update_steadystate(X, z, c['K'], c['H'])
        else:
            xp = f.x_prior.copy()
            f.update_steadystate(z)
            same(f.x_post, f.x, 'recorded posterior')
            same(f.P_post, f.P, 'recorded posterior covariance')
            same(f.x_prior, xp, 'recorded prior')
            same(f.P, c['P0'], 'covariance')
            same(f.K, c['K'], 'gain')
            if h['z'] is not None:
                close(f.y, y, 'innovation', 1e-9, max(1., np.abs(x).max()), flat=True)
        got = X if c['fun'] else f.x
        require(np.shape(got) == np.shape(lin.shape_x(x, lay)), 'state shape %s', np.shape(got))
        close(got, x, 'state', 1e-9, max(1., np.abs(x).max(), np.abs(xb).max()), flat=True)
    ctx.label('function' if c['fun'] else 'class', lay)
    ctx.nt(moved)


def gen_conv(g):
    n = g.int(1, 3)
    c = {'n': n, 'm': g.int(1, 2), 'dt': g.float(.3, 1.5), 'rot': g.floats(n * n, .15)}
    c['Q'] = g.spd(n, .05, 2.)
    c['R'] = g.spd(c['m'], .1, 10.)
    c['P0'] = g.spd(n)
    c['H'] = g.mat(c['m'], n)
    c['x0'] = g.vec(n)
    c['zs'] = g.floats(4 * c['m'], 10.).reshape(4, c['m'])
    return c


def check_conv(c, ctx):
    """started anywhere, the covariance reaches the Riccati solution; there both forms agree"""
    n, m = c['n'], c['m']
    F = np.eye(n) * .95 + c['rot'].reshape(n, n)
    H = c['H'].copy()
    H[:, 0] += 1.
    try:
        Ps = solve_discrete_are(F.T, H.T, c['Q'], c['R'])
    except Exception:
        return
    closed = F.dot(np.eye(n) - Ps.dot(H.T).dot(np.linalg.inv(H.dot(Ps).dot(H.T) + c['R'])).dot(H))
    if np.abs(np.linalg.eigvals(closed)).max() > .93:
        return
    f = KalmanFilter(n, m)
    f.F, f.H, f.Q, f.R, f.P, f.x = F, H, c['Q'], c['R'], c['P0'], c['x0'].reshape(-1, 1)
    for i in range(350):
        f.predict()
        f.update(c['zs'][i % 4])
    close(f.P_prior, Ps, 'predicted covariance after 350 steps', 1e-6)
    K, S = ref.kf_gain(Ps, H, c['R'])
    close(f.K, K, 'gain after 350 steps', 1e-6, 1e-2)
    s = KalmanFilter(n, m)
    s.F, s.H, s.K, s.x = F, H, f.K.copy(), f.x.copy()
    X = f.x.copy()
    for i in range(4):
        f.predict()
        f.update(c['zs'][i])
        s.predict_steadystate()
        s.update_steadystate(c['zs'][i])
        X = kalman.update_steadystate(kalman.predict_steadystate(X, F), c['zs'][i], f.K, H)
        sx = max(1., np.abs(f.x).max())
        close(s.x, f.x, 'steady-state filter vs full filter', 1e-5, sx)
        close(X, f.x, 'steady-state functions vs full filter', 1e-5, sx)
    ctx.nt()


SUBS = [Sub('constant gain', gen, check, 1000), Sub('riccati', gen_conv, check_conv, 120)]
