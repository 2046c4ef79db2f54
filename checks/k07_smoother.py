"""Fixed-interval smoothing == posterior given all measurements."""
import numpy as np
from filterpy import kalman
from vlib import filters, lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'K07'
RULE = ('Random time-varying linear models filtered in batch, then smoothed by the class, the '
        'function and the unscented smoother and compared with the dense joint Gaussian '
        'posterior; non-trivial: at least three steps and a smoothed state that moved.')


def gen(g):
    c = lin.model(g, 3, 2)
    n, m = c['n'], c['m']
    k = g.int(1, 6)
    c['k'] = k
    c['Q'] = g.spd(n, 1e-2, 10.)
    c['vary'] = g.bool()
    c['Fs'] = [g.trans(n) for _ in range(k)]
    c['Qs'] = [g.spd(n, 1e-2, 10.) for _ in range(k)]
    c['zs'] = [None if g.prob(1) else g.vec(m, 20.) for _ in range(k)]
    c['us'] = None
    c['how'] = g.choice(['class', 'class', 'function'])
    c['pinv'] = g.bool()
    c['lists'] = g.choice(['both', 'F', 'Q'])
    return c


def check(c, ctx):
    n, m, k, lay = c['n'], c['m'], c['k'], c['layout']
    Fs = c['Fs'] if c['vary'] and c['lists'] != 'Q' else [c['F']] * k
    Qs = c['Qs'] if c['vary'] and c['lists'] != 'F' else [c['Q']] * k
    zs = [None if z is None else lin.shape_x(z, lay) for z in c['zs']]
    d = ref.Dense(c['x0'], c['P0'])
    for i in range(k):
        d.predict(Fs[i], Qs[i])
        if zs[i] is not None:
            d.update(c['zs'][i], c['H'], c['R'])
    f = filters.A('kf', c).f
    kw = {}
    if c['vary']:
        if c['lists'] != 'Q':
            kw['Fs'] = Fs
        if c['lists'] != 'F':
            kw['Qs'] = Qs
    mu, cov, mp, cp = f.batch_filter(zs, **kw)
    if c['how'] == 'class':
        if c['pinv']:
            kw['inv'] = np.linalg.pinv
        x, P, K, Pp = f.rts_smoother(mu, cov, **kw)
    else:
        x, P, K, Pp = kalman.rts_smoother(mu, cov, Fs, Qs)
    require(np.shape(x) == np.shape(mu), 'smoothed states have shape %s', np.shape(x))
    moved = False
    for i in range(k):
        xe, Pe = d.posterior(i + 1)
        sx = max(1., np.abs(mu).max())
        close(x[i], xe, 'smoothed state %d of %d' % (i, k), 1e-5, sx, flat=True)
        close(P[i], Pe, 'smoothed covariance %d of %d' % (i, k), 1e-5, 1e-3 * np.abs(cov[i]).max())
        if i < k - 1:
            close(Pp[i], cp[i + 1], 'predicted covariance %d' % i, 1e-7)
            close(K[i].dot(cp[i + 1]), cov[i].dot(Fs[i + 1].T), 'smoother gain %d' % i, 1e-6, 1e-3)
            moved = moved or np.abs(np.ravel(x[i] - mu[i])).max() > 1e-6
        w = np.linalg.eigvalsh(ref.sym(cov[i] - P[i])).min()
        require(w >= -1e-7 * np.abs(cov[i]).max(), 'smoothing increased covariance %d', i)
    same(x[k - 1], mu[k - 1], 'last smoothed state')
    same(P[k - 1], cov[k - 1], 'last smoothed covariance')
    ctx.label(c['how'], lay, 'vary ' + c['lists'] if c['vary'] else 'constant')
    ctx.nt(k >= 3 and moved)


def gen_len(g):
    k = g.int(1, 4)
    return {'k': k, 'd': g.choice([-1, 1, 2]) if k > 1 else 1, 'how': g.choice(['class', 'function', 'ukf'])}


def check_len(c, ctx):
    Xs, Ps = np.zeros((c['k'], 2)), np.zeros((c['k'] + c['d'], 2, 2)) + np.eye(2)
    F = [np.eye(2)] * 5
    fn = {'class': lambda: kalman.KalmanFilter(2, 1).rts_smoother(Xs, Ps),
          'function': lambda: kalman.rts_smoother(Xs, Ps, F, F),
          'ukf': lambda: kalman.UnscentedKalmanFilter(
              2, 1, 1., None, lambda x, dt: x,
              kalman.JulierSigmaPoints(2, 1.)).rts_smoother(Xs, Ps)}[c['how']]
    try:
        fn()
    except ValueError:
        ctx.nt()
        return
    require(False, '%s smoother accepted %d states with %d covariances', c['how'], len(Xs), len(Ps))


def gen_ukf(g):
    c = filters.model(g, 3, 2)
    c['kind'] = g.choice(['ukf_merwe', 'ukf_julier', 'ukf_simplex'])
    k = g.int(1, 5)
    c['k'] = k
    c['zs'] = g.floats(k * c['m'], 20.).reshape(k, c['m'])
    c['dts'] = [g.choice([.25, .5, 1., 2., 0.]) for _ in range(k)] if g.bool() else \
        (g.choice([.5, 2., 0.]) if g.bool() else None)
    c['Qs'] = [g.spd(c['n'], 1e-2, 10.) for _ in range(k)] if g.bool() else None
    return c


def check_ukf(c, ctx):
    a = filters.A(c['kind'], c)
    f, k, n = a.f, c['k'], c['n']
    A = c['F'] - np.eye(n)
    f.fx = lambda x, dt: x + dt * A.dot(x)
    dts = c['dts'] if isinstance(c['dts'], list) else [1. if c['dts'] is None else c['dts']] * k
    Qs = [c['Q']] * k if c['Qs'] is None else c['Qs']
    d = ref.Dense(c['x0'], c['P0'])
    mu, cov = [], []
    for i in range(k):
        f.Q = Qs[i]
        f.predict(dt=dts[i])
        f.update(c['zs'][i])
        mu.append(f.x.copy())
        cov.append(f.P.copy())
        d.predict(np.eye(n) + dts[i] * A, Qs[i])
        d.update(c['zs'][i], c['H'], c['R'])
    f.Q = c['Q']
    mu, cov = np.array(mu), np.array(cov)
    x, P, K = f.rts_smoother(mu, cov, Qs=c['Qs'], dts=c['dts'])
    sx = max(1., np.abs(mu).max())
    for i in range(k):
        xe, Pe = d.posterior(i + 1)
        close(x[i], xe, 'unscented smoothed state %d of %d' % (i, k), 1e-5, sx, flat=True)
        close(P[i], Pe, 'unscented smoothed covariance %d of %d' % (i, k), 1e-5,
              1e-2 * np.abs(cov[i]).max())
    ctx.label(c['kind'], 'dts ' + type(c['dts']).__name__)
    ctx.nt(k >= 3)


SUBS = [Sub('linear', gen, check, 1200), Sub('unscented', gen_ukf, check_ukf, 500),
        Sub('lengths', gen_len, check_len, 60)]
