"""Multivariate normal densities and likelihoods."""
import math
import warnings

import numpy as np
from filterpy import stats
from filterpy.kalman import KalmanFilter
from vlib.harness import Sub, close, require, raises

PROPERTY = 'S02'
RULE = ('Random points, means and covariances (SPD, singular with the point on the support, scalar), '
        'each vector in several forms; densities against an eigenvalue-free log-determinant and '
        'solve, on-support singular densities against a reduced full-rank density; likelihoods '
        'against the predicted measurement distribution and the filter; invalid covariances must be '
        'rejected. Non-trivial: dimension above one, or singular, or a rejected input.')

FORMS = ['vec', 'col', 'row', 'list', 'listcol']


def form(v, k, scalar_ok=True):
    v = np.asarray(v, dtype=float).ravel()
    if k in ('vec', 'int'):
        return v.copy()
    if k == 'col':
        return v.reshape(-1, 1).copy()
    if k == 'row':
        return v.reshape(1, -1).copy()
    if k == 'list':
        return v.tolist()
    if k == 'listcol':
        return [[q] for q in v.tolist()]
    return float(v[0])


def logdens(x, m, C):
    d = np.asarray(x) - np.asarray(m)
    n = len(d)
    L = np.linalg.cholesky(C)
    y = np.linalg.solve(L, d)
    return -.5 * (n * math.log(2 * math.pi) + y.dot(y)) - math.fsum(math.log(q) for q in np.diag(L))


def gen(g):
    n = g.dim(1, 5, 8)
    return {'n': n, 'x': g.vec(n), 'm': g.vec(n), 'C': g.spd(n), 'r': g.int(1, 5), 'A': g.mat(n, 5),
            'w': g.floats(5, 3.), 'fx': g.choice(FORMS + (['scalar'] if n == 1 else [])),
            'fm': g.choice(FORMS + ['none', 'int'] + (['scalar'] if n == 1 else [])),
            's': g.logfloat(*g.choice([(1e-3, 1e3), (1e-8, 1e8)])), 'near': g.float(0., 3.),
            'units': [g.int(-25, 25) for _ in range(n)] if g.prob(3) else
            [g.int(-75, 75)] * n if g.prob(3) else [0] * n}


def check_logpdf(c, ctx):
    n, C = c['n'], c['C']
    whole = c['fm'] == 'int'                # a mean of integers, which the densities must not pass on
    u = 2. ** (np.array(c['units']) * (not whole))          # components in different units
    C = C * np.outer(u, u)
    m = np.zeros(n) if c['fm'] == 'none' else np.round(c['m'] * 4) if whole else c['m'] * u
    ctx.label('units' if any(c['units']) else '')
    x = m + c['near'] * np.linalg.cholesky(C).dot(c['x'] / 8.)
    mean = None if c['fm'] == 'none' else m.astype(int) if whole else form(m, c['fm'])
    e = logdens(x, m, C)
    big = max(1., abs(e), 1e-3 * max(np.abs(x / u).max(), np.abs(m / u).max()) ** 2 / np.linalg.eigvalsh(C / np.outer(u, u)).min())
    xx = form(x, c['fx'])
    for what, f in (('logpdf', lambda: stats.logpdf(xx, mean, C.copy())),
                    ('logpdf by keyword', lambda: stats.logpdf(x=xx, mean=mean, cov=C.tolist())),
                    ('logpdf without allow_singular',
                     lambda: stats.logpdf(xx, mean, C.copy(), allow_singular=False))):
        r = f()
        require(np.size(r) == 1, '%s returned %r', what, r)
        close(r, e, what, 1e-9, big, shape=False)
    if c['fm'] == 'none' and n == 1:
        close(stats.logpdf(xx), logdens(x, m, np.eye(1)), 'standard normal logpdf', 1e-9, big, shape=False)
    if n == 1 or mean is not None:
        close(stats.logpdf(xx, mean, c['s']), logdens(x, m, np.eye(n) * c['s']), 'logpdf, scalar covariance',
              1e-9, max(big, np.dot(x - m, x - m) / c['s']), shape=False)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        mm = mean if whole else form(m, c['fm'] if mean is not None else 'vec')
        fx = xx
        close(stats.multivariate_gaussian(fx, mm, C.copy()), math.exp(e), 'multivariate_gaussian', 1e-8 * big)
        close(stats.multivariate_gaussian(fx, mm, C.tolist()), math.exp(e), 'multivariate_gaussian', 1e-8 * big)
        es = logdens(x, m, np.eye(n) * c['s'])
        if es > -600:
            close(stats.multivariate_gaussian(fx, mm, c['s']), math.exp(es),
                  'multivariate_gaussian, scalar covariance', 1e-8 * max(big, abs(es)))
    ctx.label('x ' + c['fx'], 'mean ' + c['fm'])
    ctx.nt(n > 1)


def check_singular(c, ctx):
    n = c['n'] + 1
    r = 1 + c['r'] % (n - 1) if n > 2 else 1
    # C = U diag(s) U^T with orthonormal U (n x r); the density lives on mean + span(U)
    A = np.eye(n) + .1 * np.resize(c['A'], (n, n))
    Q = np.linalg.qr(A)[0][:, :r]
    s = np.abs(c['w'][:r]) if r <= 5 else np.ones(r)
    s = .2 + np.resize(s, r)
    C = (Q * s).dot(Q.T)
    C = .5 * (C + C.T)
    m = np.resize(c['m'], n)
    a = np.resize(c['x'], r) * .4
    x = m + Q.dot(a)
    e = logdens(a, np.zeros(r), np.diag(s))
    xx, mm = form(x, c['fx'] if c['fx'] != 'scalar' else 'vec'), \
        form(m, c['fm'] if c['fm'] not in ('none', 'scalar') else 'col')
    close(stats.logpdf(xx, mm, C), e, 'logpdf on the support of a singular covariance', 1e-6,
          max(1., abs(e)), shape=False)
    close(stats.logpdf(xx, mm, C, allow_singular=True), e, 'logpdf on the support', 1e-6,
          max(1., abs(e)), shape=False)
    raises(lambda: stats.logpdf(xx, mm, C, allow_singular=False), (ValueError, np.linalg.LinAlgError),
           'logpdf of a singular covariance with allow_singular=False')
    ctx.label('rank %d of %d' % (r, n))
    ctx.nt()


def gen_lik(g):
    n, m = g.dim(1, 4, 7), g.dim(1, 3, 6)
    return {'n': n, 'm': m, 'x': g.vec(n), 'P': g.spd(n), 'H': g.mat(m, n), 'R': g.spd(m),
            'z': g.vec(m), 'fx': g.choice(['vec', 'col']),
            'fz': g.choice(FORMS + (['scalar'] if m == 1 else [])), 'scalar_R': g.bool(), 't': g.bool(),
            'u': g.choice([0, 0, g.int(-40, 40)]), 'v': g.choice([0, 0, g.int(-40, 40)])}


def check_lik(c, ctx):
    n, m, H, P, x = c['n'], c['m'], c['H'], c['P'], c['x']
    u, v = 2. ** c['u'], 2. ** c['v']       # units of the measurement and of the state
    H, P, x = H * (u / v), P * v * v, x * v
    c = dict(c, R=c['R'] * u * u, z=c['z'] * u)
    R = float(c['R'][0, 0]) if m == 1 and c['scalar_R'] else c['R']
    S = H.dot(P).dot(H.T) + R
    S = .5 * (S + S.T)
    zc = H.dot(x) + np.linalg.cholesky(S).dot(c['z'] / u / 4.) if c['t'] else c['z']
    e = logdens(zc, H.dot(x), S)
    cond = np.linalg.cond(S)
    sc = max(1., abs(e), abs(zc).max() / u, np.abs(H.dot(x)).max() / u)
    if cond > 1e5:
        return
    z, xx = form(zc, c['fz']), form(x, c['fx'])
    close(stats.log_likelihood(z, xx, P, H, R), e, 'log_likelihood', 1e-10 * cond + 1e-9, sc, shape=False)
    if -600 < e < 600:
        close(stats.likelihood(z, xx, P, H, R), math.exp(e), 'likelihood', (1e-10 * cond + 1e-9) * sc,
              1e-3 + math.exp(e), shape=False)
    kf = KalmanFilter(n, m)
    kf.x = form(x, c['fx'])
    kf.P, kf.H, kf.R = P.copy(), H.copy(), c['R'].copy()
    kf.update(form(zc, 'col' if c['fx'] == 'col' else 'vec'))
    close(kf.log_likelihood, stats.log_likelihood(z, xx, P, H, c['R']),
          'log-likelihood of the filter against the helper', 1e-10 * cond + 1e-9, sc, shape=False)
    ctx.label('z ' + c['fz'], 'x ' + c['fx'])
    ctx.nt(n > 1 and m > 1)


def gen_bad(g):
    n = g.int(2, 4)
    return {'n': n, 'C': g.spd(n), 'k': g.choice(['negative scalar', 'indefinite', 'zero eigenvalue', 'negative']),
            'i': g.int(0, 3), 'x': g.vec(n), 's': g.logfloat(*g.choice([(.01, 100.), (1e-6, 1e6)]))}


def check_bad(c, ctx):
    n, k = c['n'], c['k']
    if k == 'negative scalar':
        C = -c['s']
    elif k == 'negative':
        C = -c['C']
    else:
        C = c['C'].copy()
        i = c['i'] % n
        C[i, :] = C[:, i] = 0.
        C[i, i] = -c['s'] if k == 'indefinite' else 0.
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        raises(lambda: stats.multivariate_gaussian(c['x'], np.zeros(n), C), ValueError,
               'multivariate_gaussian with %s covariance' % k)
    ctx.label(k)
    ctx.nt()


SUBS = [Sub('logpdf', gen, check_logpdf, quick=1200),
        Sub('singular', gen, check_singular, quick=500),
        Sub('likelihood', gen_lik, check_lik, quick=800),
        Sub('rejected', gen_bad, check_bad, quick=150)]
