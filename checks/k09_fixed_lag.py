"""Fixed-lag smoothing == posterior of each state given everything up to `lag` steps later."""
import numpy as np
from filterpy.kalman import FixedLagSmoother
from vlib import lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'K09'
RULE = ('Random linear models, lags 0-6 and data sets of 1-9 measurements, recursive and batch, '
        'against the dense joint Gaussian posterior after every step; non-trivial: lag >= 1, at '
        'least three steps and a state that smoothing moved.')


def gen(g):
    c = lin.model(g, 3, 2)
    c['N'] = g.int(0, 6)
    k = g.int(1, 9)
    c['zs'] = g.floats(k * c['m'], 20.).reshape(k, c['m'])
    c['us'] = [g.vec(c['u_dim'], 4.) for _ in range(k)] if c['u_dim'] else None
    c['scalar'] = g.bool()
    c['ztype'] = g.choice([None, None, 'f', 'i'])
    if c['ztype']:
        c['zs'] = np.round(c['zs'])
    c['change'] = g.int(0, k) if g.prob(3) else None
    c['F2'] = g.trans(c['n'])
    c['R2'] = g.spd(c['m'])
    return c


def make(c, N):
    f = FixedLagSmoother(c['n'], c['m'], N=N)
    f.x = lin.shape_x(c['x0'], c['layout'])
    f.P, f.F, f.Q, f.H, f.R = (c['P0'].copy(), c['F'].copy(), c['Q'].copy(), c['H'].copy(),
                               c['R'].copy())
    if c['B'] is not None:
        f.B = c['B'].copy()
    return f


def check(c, ctx):
    k, N, lay = len(c['zs']), c['N'], c['layout']
    f = make(c, N)
    d = ref.Dense(c['x0'], c['P0'])
    zs = [float(z[0]) if c['m'] == 1 and c['scalar'] else lin.shape_x(z, lay) for z in c['zs']]
    if c['ztype'] and not (c['m'] == 1 and c['scalar']):
        zs = [z.astype(c['ztype']) for z in zs]        # exact in these types too
    us = None if c['us'] is None else [lin.shape_u(u, lay) for u in c['us']]
    F, R = c['F'], c['R']
    moved = False
    sc = 1.
    for i in range(k):
        if c['change'] == i:
            f.F, f.R = c['F2'].copy(), c['R2'].copy()
            F, R = c['F2'], c['R2']
        if us is None:
            f.smooth(zs[i])
            d.predict(F, c['Q'])
        else:
            f.smooth(zs[i], us[i])
            d.predict(F, c['Q'], c['B'].dot(c['us'][i]))
        d.update(c['zs'][i], c['H'], R)
        require(len(f.xSmooth) == i + 1, '%d smoothed states after %d steps', len(f.xSmooth), i + 1)
        xf, Pf = d.posterior()
        sc = max(sc, np.abs(d.mean).max(), np.abs(c['zs']).max())
        close(f.x, xf, 'filtered state %d' % i, 1e-6, sc, flat=True)
        close(f.P, Pf, 'filtered covariance %d' % i, 1e-6, 1e-3 * np.abs(c['P0']).max())
        for j in range(i + 1):
            xe, _ = d.posterior(j + 1, upto=min(i, j + N) + 1)
            close(f.xSmooth[j], xe, 'fixed-lag estimate of state %d after %d steps with lag %d' % (
                j, i + 1, N), 1e-6, sc, flat=True)
        if i and N and np.abs(np.ravel(f.xSmooth[i - 1]) - d.posterior(i, upto=i)[0].ravel()).max() > 1e-6:
            moved = True
    if c['ztype'] and c['change'] is None:
        b = make(c, N)
        for i in range(k):
            b.smooth(np.array(zs[i], dtype=float), *(() if us is None else (us[i],)))
        close(np.array(f.xSmooth), np.array(b.xSmooth), 'smoothed from %s instead of double' % c['ztype'], 1e-12, sc)
    if c['change'] is None or c['change'] >= k:
        b = make(c, None)
        x0, P0 = b.x.copy(), b.P.copy()
        xs, xh = b.smooth_batch(zs, N, us=us)
        same(b.x, x0, 'state of the object after smooth_batch')
        same(b.P, P0, 'covariance of the object after smooth_batch')
        shp = (k, c['n']) if lay == '1d' else (k, c['n'], 1)
        require(xs.shape == shp and xh.shape == shp, 'shapes %s %s', xs.shape, xh.shape)
        for j in range(k):
            close(xs[j], f.xSmooth[j], 'batch vs recursive smoothed state %d' % j, 1e-7, sc,
                  flat=True)
            close(xh[j], d.posterior(j + 1, upto=j + 1)[0], 'batch filtered state %d' % j, 1e-6, sc,
                  flat=True)
        # a second batch on the same object gives the same answer
        xs2, _ = b.smooth_batch(zs, N, us=us)
        same(xs2, xs, 'second smooth_batch')
    ctx.label('N%d' % N, lay)
    ctx.nt(moved and k >= 3)


def gen_long(g):
    n, m, k = g.dim(1, 3, 6), g.dim(1, 2, 5), g.choice([20, 60, 130, 300])
    F = g.trans(n)
    c = {'n': n, 'm': m, 'k': k, 'N': g.choice([0, 1, 5, 17, 40, 400]), 'x0': g.vec(n), 'P0': g.spd(n),
         'F': F / max(1., np.abs(F).sum(axis=1).max()), 'Q': g.spd(n, .1, 10.) if g.bool() else np.eye(n) * g.choice([1e-3, 1e-5]), 'R': g.spd(m, .1, 10.),
         'H': g.mat(m, n), 'seed': g.int(0, 10 ** 6), 'batch': g.bool()}
    return c


def check_long(c, ctx):
    """long records and long lags, against a backward pass over each window"""
    n, m, k, N, F, Q = c['n'], c['m'], c['k'], c['N'], c['F'], c['Q']
    zs = 10. * np.random.RandomState(c['seed']).randn(k, m, 1)
    f = FixedLagSmoother(n, m, N=N)
    f.x, f.P, f.F, f.Q, f.H, f.R = ref.col(c['x0']), c['P0'].copy(), F, Q, c['H'], c['R']
    if c['batch']:
        got, filt = f.smooth_batch(list(zs), N)
    else:
        filt = []
        for z in zs:
            f.smooth(z)
            filt.append(f.x)
        got = f.xSmooth
    x, P = ref.col(c['x0']), c['P0']
    xs, Ps = [], []
    for z in zs:
        x, P = ref.kf_predict(x, P, F, Q)
        x, P = ref.kf_update(x, P, z, c['H'], c['R'])[:2]
        xs.append(x)
        Ps.append(P)
    sc = 10. + np.abs(np.array(xs)).max()
    require(len(got) == k, '%d smoothed states for %d measurements', len(got), k)
    C = []
    for P in Ps:
        Pp = F.dot(P).dot(F.T) + Q
        C.append(np.linalg.solve(Pp.T, F.dot(P.T)).T)
    for j in range(k):
        e = min(j + N, k - 1)
        s = xs[e]
        for i in range(e - 1, j - 1, -1):
            s = xs[i] + C[i].dot(s - F.dot(xs[i]))
        close(filt[j], xs[j], 'filtered state %d' % j, 1e-6, sc, flat=True)
        close(got[j], s, 'fixed-lag estimate of state %d of %d with lag %d' % (j, k, N), 1e-6, sc,
              flat=True)
    ctx.label('N%d' % N, 'k%d' % k, 'batch' if c['batch'] else 'recursive')
    ctx.nt(N > 0)


SUBS = [Sub('lag', gen, check, 1200), Sub('long', gen_long, check_long, 40, 400)]
