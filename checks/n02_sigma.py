"""Sigma points reproduce mean and covariance; the unscented transform is a weighted moment."""
import numpy as np
import scipy.linalg
from filterpy.kalman import (MerweScaledSigmaPoints, JulierSigmaPoints, SimplexSigmaPoints,
                             unscented_transform)
from vlib import ref
from vlib.harness import Sub, close, require, raises, Violation

PROPERTY = 'N02'
RULE = ('Random means, covariances (dimension 1-6), scheme parameters, square roots and subtraction '
        'functions, and random weighted point sets through the transform with every optional '
        'argument, against direct moment sums; non-trivial: dimension at least 2 with a full '
        'covariance (or a nonlinear mean/residual function).')


def sym_sqrt(P):
    w, v = np.linalg.eigh(P)
    return v.dot(np.diag(np.sqrt(w))).dot(v.T)


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


def gen(g):
    n = g.int(1, 6)
    c = {'kind': g.choice(['merwe', 'julier', 'simplex']), 'n': n,
         'x': g.vec(n, 8.), 'P': g.spd(n), 'sqrt': g.choice(['default', 'default', 'sym', 'chol']),
         'form': g.choice(['array', 'array', 'list', 'tuple', 'scalar']),
         'alpha': g.choice([1., .5, .1, .01, .3]) if g.bool() else g.float(.05, 1.5),
         'beta': g.choice([2., 0., 1., 3.]),
         'sub': g.choice(['default', 'default', 'wrap', 'record'])}
    c['kappa'] = g.choice([0., 1., 2., 3. - n, .5])
    if g.prob(2):
        c['P'] = np.eye(n) * g.logfloat(1e-2, 1e2)
        c['Pscalar'] = True
    else:
        c['Pscalar'] = False
    return c


def make(c, **kw):
    n = c['n']
    if c['kind'] == 'merwe':
        return MerweScaledSigmaPoints(n, c['alpha'], c['beta'], c['kappa'], **kw)
    if c['kind'] == 'julier':
        return JulierSigmaPoints(n, c['kappa'], **kw)
    return SimplexSigmaPoints(n, **kw)


def check(c, ctx):
    n, x, P = c['n'], c['x'], c['P']
    kw = {}
    if c['sqrt'] != 'default':
        kw['sqrt_method'] = {'sym': sym_sqrt, 'chol': scipy.linalg.cholesky}[c['sqrt']]
    seen = []
    if c['sub'] == 'wrap':
        # the first component is an angle
        def sub(a, b):
            d = np.subtract(a, b)
            d[0] = wrap(d[0])
            return d
        kw['subtract'] = sub
    elif c['sub'] == 'record':
        def sub(a, b):
            seen.append(1)
            return np.subtract(a, b)
        kw['subtract'] = sub
    s = make(c, **kw)
    X = {'array': x.copy(), 'list': [float(v) for v in x], 'tuple': tuple(float(v) for v in x),
         'scalar': float(x[0]) if n == 1 else x.copy()}[c['form']]
    if c['sub'] == 'wrap' and c['form'] in ('list', 'tuple'):
        X = x.copy()
    p = s.sigma_points(X, float(P[0, 0]) if c['Pscalar'] else P)
    N = n + 1 if c['kind'] == 'simplex' else 2 * n + 1
    require(s.num_sigmas() == N, 'num_sigmas() is %r, expected %r', s.num_sigmas(), N)
    require(np.shape(p) == (N, n), 'sigma points have shape %s, expected %s', np.shape(p), (N, n))
    Wm, Wc = np.array(s.Wm), np.array(s.Wc)
    require(Wm.shape == (N,) and Wc.shape == (N,), 'weights have shapes %s, %s', Wm.shape, Wc.shape)
    wmax = np.abs(Wm).sum()
    close(Wm.sum(), 1., 'sum of the mean weights', 1e-11, wmax)
    if c['sub'] == 'wrap':
        plain = make(c, **{k: v for k, v in kw.items() if k != 'subtract'}).sigma_points(x, P)
        d = p - plain
        d[:, 0] = wrap(d[:, 0] + 1e-9) - 1e-9
        close(d, np.zeros(d.shape), 'points with an angle-aware subtraction, modulo 2 pi', 1e-9,
              max(1., np.abs(plain).max()))
        require(np.all(np.abs(p[1:, 0]) <= np.pi + 1e-9) if c['kind'] != 'simplex' else
                np.all(np.abs(p[:, 0]) <= np.pi + 1e-9), 'subtraction function not used: %r',
                p[:, 0].tolist())
        p = plain
    if c['sub'] == 'record':
        require(seen, 'the subtraction function was not called')
    # moments; cancellation error grows with the weights and the spread of the points
    tol = 1e-10 * max(1., wmax)
    close(Wm.dot(p), x, 'weighted mean of the sigma points', tol,
          max(np.abs(x).max(), np.abs(p).max(), 1e-3))
    d = p - x
    C = (Wc[:, None] * d).T.dot(d)
    close(C, P, 'weighted covariance of the sigma points', tol, np.abs(x).max() * 1e-3)
    ws = np.linalg.eigvalsh(P)
    Pi = np.linalg.inv(P)
    m2 = np.einsum('ij,jk,ik->i', d, Pi, d)
    ktol = 1e-6 * max(1., ws.max() / ws.min()) * max(1., (np.abs(x).max() ** 2) / ws.min() * 1e-6)
    if c['kind'] == 'merwe':
        lam = c['alpha'] ** 2 * (n + c['kappa']) - n
        W = np.full(N, .5 / (n + lam))
        W[0] = lam / (n + lam)
        close(Wm, W, 'mean weights', 1e-10)
        W[0] += 1 - c['alpha'] ** 2 + c['beta']
        close(Wc, W, 'covariance weights', 1e-10)
        spread = n + lam
    elif c['kind'] == 'julier':
        W = np.full(N, .5 / (n + c['kappa']))
        W[0] = c['kappa'] / (n + c['kappa'])
        close(Wm, W, 'mean weights', 1e-12)
        close(Wc, W, 'covariance weights', 1e-12)
        spread = n + c['kappa']
    else:
        close(Wm, np.full(N, 1. / N), 'mean weights', 1e-12)
        close(Wc, np.full(N, 1. / N), 'covariance weights', 1e-12)
        spread = n
    if c['kind'] == 'simplex':
        close(m2, np.full(N, float(n)), 'distance of the simplex points', ktol)
        # regular simplex: equal angles between all points
        G = d.dot(Pi).dot(d.T)
        off = G[~np.eye(N, dtype=bool)]
        close(off, np.full(off.shape, -1. if n else 0.), 'angles of the simplex', ktol, n)
    else:
        close(p[0], x, 'central sigma point', 1e-12)
        close(m2[1:], np.full(2 * n, spread), 'distance of the sigma points', ktol)
        close(p[1:n + 1] + p[n + 1:], 2 * np.tile(x, (n, 1)), 'pairs of points', 1e-9,
              np.abs(p).max())
    ctx.label(c['kind'], 'n%d' % n, c['sqrt'], c['sub'], c['form'])
    ctx.nt(n >= 2 and not np.allclose(P, np.diag(np.diag(P))))


def gen_ut(g):
    n, N = g.int(1, 4), g.int(1, 9)
    return {'n': n, 'N': N, 's': g.vec(n * N, 5.).reshape(N, n), 'Wm': g.vec(N, 2.),
            'Wc': g.vec(N, 2.), 'noise': g.psd(n) if g.bool() else None,
            'mean': g.choice(['none', 'none', 'angle', 'first']),
            'res': g.choice(['none', 'none', 'subtract', 'wrap', 'double', 'uneven']), 'pos': g.bool()}


def res_fn(name):
    if name == 'wrap':
        def f(a, b):
            d = a - b
            d[0] = wrap(d[0])
            return d
        return f
    return {'none': None, 'subtract': np.subtract, 'double': lambda a, b: 2. * (a - b),
            'uneven': lambda a, b: 1.5 * a - b}[name]


def check_ut(c, ctx):
    s, Wm, Wc = c['s'], c['Wm'], c['Wc']
    x = Wm.dot(s)
    mf = None
    if c['mean'] == 'angle':
        def mf(sig, w):
            m = w.dot(sig)
            m[0] = np.arctan2(w.dot(np.sin(sig[:, 0])), w.dot(np.cos(sig[:, 0])))
            return m
        x = mf(s, Wm)
    elif c['mean'] == 'first':
        def mf(sig, w):
            return sig[0] + w[0]
        x = s[0] + Wm[0]
    rf = res_fn(c['res'])
    P = np.zeros((c['n'], c['n']))
    for k in range(c['N']):
        y = (rf or np.subtract)(s[k].copy(), x.copy())
        P += Wc[k] * np.outer(y, y)
    if c['noise'] is not None:
        P = P + c['noise']
    if c['pos']:
        gx, gP = unscented_transform(s.copy(), Wm, Wc, c['noise'], mf, rf)
    else:
        gx, gP = unscented_transform(sigmas=s.copy(), Wm=Wm, Wc=Wc, noise_cov=c['noise'],
                                     mean_fn=mf, residual_fn=rf)
    sc = max(1., np.abs(s).max(), np.abs(Wm).max())
    close(gx, x, 'transformed mean', 1e-10, 20 * sc)
    close(gP, P, 'transformed covariance', 1e-9, 20 * sc ** 2)
    ctx.label(c['mean'], c['res'])
    ctx.nt(c['n'] >= 2 or c['mean'] != 'none' or c['res'] != 'none')


def gen_affine(g):
    c = gen(g)
    c['sub'] = 'default'
    c['form'] = 'array'
    c['m'] = g.int(1, 5)
    c['A'], c['b'] = g.mat(c['m'], c['n']), g.vec(c['m'])
    c['noise'] = g.psd(c['m']) if g.bool() else None
    return c


def check_affine(c, ctx):
    s = make(c)
    p = s.sigma_points(c['x'], c['P'])
    q = p.dot(c['A'].T) + c['b']
    x, P = unscented_transform(q, s.Wm, s.Wc, c['noise'])
    e = c['A'].dot(c['P']).dot(c['A'].T)
    if c['noise'] is not None:
        e = e + c['noise']
    w = max(1., np.abs(s.Wm).sum())
    sc = max(1., np.abs(q).max(), np.abs(c['x']).max())
    close(x, c['A'].dot(c['x']) + c['b'], 'mean of an affine image', 1e-10 * w, sc)
    close(P, e, 'covariance of an affine image', 1e-9 * w, np.abs(c['A']).max() ** 2 *
          np.abs(c['P']).max() + 1e-3 * sc ** 2)
    ctx.label(c['kind'])
    ctx.nt(c['n'] >= 2 and np.abs(c['A']).max() > 0)


def gen_bad(g):
    n = g.int(1, 5)
    k = g.int(1, 5)
    return {'kind': g.choice(['merwe', 'julier', 'simplex']), 'n': n, 'k': k if k != n else n + 1,
            'alpha': .5, 'beta': 2., 'kappa': 1., 'list': g.bool()}


def check_bad(c, ctx):
    s = make(c)
    x = [0.] * c['k'] if c['list'] else np.zeros(c['k'])
    raises(lambda: s.sigma_points(x, np.eye(c['k'])), ValueError,
           'a mean of size %d for %d-dimensional points' % (c['k'], c['n']))
    ctx.nt()


SUBS = [Sub('points', gen, check, 2000), Sub('transform', gen_ut, check_ut, 1200),
        Sub('affine', gen_affine, check_affine, 800), Sub('size', gen_bad, check_bad, 80)]
