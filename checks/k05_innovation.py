"""Innovation, its covariance, likelihood, log-likelihood and Mahalanobis distance."""
import math
import sys
import numpy as np
from filterpy import kalman
from vlib import filters, lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'K05'
RULE = ('Random models and histories on seven filter classes and the function form; statistics '
        'read after some updates only (stale caches would show), with near and far measurements '
        '(likelihood underflow); non-trivial: at least two updates whose statistics were read.')

KINDS = ['kf', 'ekf', 'fkf', 'if', 'srkf', 'ukf_merwe', 'ukf_julier', 'ukf_simplex', 'ckf']


def gen(g):
    c = filters.model(g, 4, 3)
    c['kind'] = g.choice(KINDS)
    c['hist'] = []
    for _ in range(g.int(1, 6)):
        far = g.choice([1., 1., 10., 1e3]) if c['kind'] != 'ckf' else g.choice([1., 5.])
        c['hist'].append({'z': g.vec(c['m'], 5.) * far, 'p': g.prob(6), 'read': g.prob(7),
                          'R': g.spd(c['m'], 1e-2, 30.) if g.prob(3) else None,
                          'none': g.prob(1)})
    return c


def expect_stats(f, y, S, tol, what):
    n = len(y)
    ll = ref.gauss_logpdf(y, S)
    d2 = ref.maha(y, S) ** 2
    close(f.y, y, what + ' innovation', tol, max(1., np.abs(y).max()), flat=True)
    close(f.S, S, what + ' innovation covariance', tol)
    t = tol * (10. + d2 * 10)
    if hasattr(f, 'log_likelihood'):
        got = float(f.log_likelihood)
        require(abs(got - ll) <= t, '%s log-likelihood %r, expected %r (y=%s S=%s)', what, got, ll,
                y.tolist(), S.tolist())
        lk = float(f.likelihood)
        want = math.exp(got) if got > -745 else 0.
        if want == 0:
            want = sys.float_info.min
        require(abs(lk - want) <= 1e-6 * want, '%s likelihood %r, expected %r', what, lk, want)
        require(lk > 0, '%s likelihood is not positive', what)
    if hasattr(f, 'mahalanobis'):
        got = float(f.mahalanobis)
        require(abs(got ** 2 - d2) <= tol * (1. + 10 * d2), '%s Mahalanobis distance %r, expected '
                '%r', what, got, math.sqrt(d2))
    if hasattr(f, 'SI'):
        close(np.dot(f.SI, S), np.eye(n), what + ' inverse innovation covariance', 1e-6)


def check(c, ctx):
    kind = c['kind']
    ad = filters.A(kind, c)
    F, Q, H = c['F'], c['Q'], c['H']
    x, P = ref.col(c['x0']), c['P0']
    reads = 0
    sigma = kind in filters.SIGMA
    for i, h in enumerate(c['hist']):
        if h['p'] or sigma:
            ad.predict()
            x, P = ref.kf_predict(x, P, F, Q)
        if h['none']:
            ad.update(None)
        R = c['R']
        kw = {}
        if h['R'] is not None and kind != 'srkf':
            R = h['R']
        z = ad.zarg(h['z'])
        if R is not c['R']:
            if kind == 'ekf':
                ad.f.update(z, ad.jac, ad.hx, R=R)
            elif kind == 'if':
                ad.f.update(z, R_inv=np.linalg.inv(R))
            else:
                ad.f.update(z, R=R)
        else:
            ad.update(h['z'], zraw=z)
        x, P, y, S, K = ref.kf_update(x, P, h['z'], H, R)
        if h['read']:
            tol = 1e-6 if sigma or kind == 'if' else 1e-7
            expect_stats(ad.f, y, S, tol, '%s update %d' % (kind, i))
            close(ad.f.K, K, '%s gain' % kind, 1e-5, 1e-2)
            if i % 2:       # reading twice gives the same
                expect_stats(ad.f, y, S, tol, '%s second reading of update %d' % (kind, i))
            if kind == 'kf':
                zz = h['z'] + 1.
                want = ref.gauss_logpdf(ref.col(zz) - H.dot(x), S)
                got = float(ad.f.log_likelihood_of(zz))
                require(abs(got - want) <= 1e-5 * (1 + abs(want)),
                        'log_likelihood_of: %r, expected %r', got, want)
                require(ad.f.log_likelihood_of(None) == math.log(sys.float_info.min),
                        'log_likelihood_of(None)')
                close(ad.f.residual_of(z), ref.col(h['z']) - H.dot(ref.col(ad.x_prior())),
                      'residual_of', 1e-7, 1., flat=True) if h['p'] else None
            reads += 1
        close(ad.x(), x, '%s state' % kind, 1e-5, max(1., np.abs(x).max(), np.abs(h['z']).max()), flat=True)
    ctx.label(kind, 'm%d' % c['m'])
    ctx.nt(reads >= 2)


def gen_fun(g):
    c = lin.model(g, 4, 3)
    c['z'] = g.vec(c['m'], 5.) * g.choice([1., 10., 100.])
    c['form'] = lin.z_forms(g, c['m'], c['layout'])
    return c


def check_fun(c, ctx):
    x = lin.shape_x(c['x0'], c['layout'])
    r = kalman.update(x, c['P0'], lin.make_z(c['z'], c['form']), c['R'], c['H'], return_all=True)
    require(len(r) == 6, 'return_all gives %d values', len(r))
    xe, Pe, y, S, K = ref.kf_update(ref.col(c['x0']), c['P0'], lin.zval(c['z'], c['form']),
                                    c['H'], c['R'])
    sx = max(1., np.abs(xe).max())
    close(r[0], xe, 'state', 1e-7, sx, flat=True)
    close(r[1], Pe, 'covariance', 1e-6, np.abs(c['P0']).max() * 1e-3)
    close(r[2], y, 'innovation', 1e-8, 1., flat=True)
    close(r[3], K, 'gain', 1e-6, 1e-2)
    close(r[4], S, 'innovation covariance', 1e-8)
    want = ref.gauss_logpdf(y, S)
    require(abs(float(r[5]) - want) <= 1e-6 * (1 + abs(want)), 'log-likelihood %r, expected %r',
            r[5], want)
    ctx.label(c['form'], 'm%d' % c['m'])
    ctx.nt(np.abs(y).max() > 0)


def gen_res(g):
    return {'x': g.float(-3., 3.), 'v': g.float(-1., 1.), 'zt': g.float(-3.1, 3.1),
            'P': g.spd(2, 1e-2, 1.), 'R': g.logfloat(1e-2, 1.), 'wrap': g.int(-2, 2)}


def check_res(c, ctx):
    """a custom residual (angle wrap) replaces subtraction in innovation and correction"""
    def wrap(a, b):
        d = np.asarray(a, dtype=float) - b
        return (d + np.pi) % (2 * np.pi) - np.pi
    f = kalman.ExtendedKalmanFilter(2, 1)
    f.x = np.array([c['x'], c['v']])
    f.P = c['P'].copy()
    f.R = np.array([[c['R']]])
    H = np.array([[1., 0.]])
    z = c['zt'] + 2 * np.pi * c['wrap']
    f.update(np.array([z]), lambda x: H, lambda x: H.dot(x), residual=wrap)
    y = np.array([[(z - c['x'] + np.pi) % (2 * np.pi) - np.pi]])
    K, S = ref.kf_gain(c['P'], H, f.R)
    if abs(abs(y[0, 0]) - np.pi) < 1e-6:
        return
    close(f.y, y, 'wrapped innovation', 1e-8, 1., flat=True)
    close(f.x, np.array([[c['x']], [c['v']]]) + K.dot(y), 'state', 1e-8, 1., flat=True)
    expect_stats(f, y, S, 1e-7, 'EKF with residual')
    ctx.nt(c['wrap'] != 0)


NAMES = ['log_likelihood', 'likelihood', 'mahalanobis']


def gen_order(g):
    """every kind of update a class has, and statistics read in any order, or not at all"""
    c = filters.model(g, 3, 2)
    c['kind'] = g.choice(['kf', 'kf', 'kf'] + KINDS)
    c['M'] = g.mat(c['n'], c['m']) * .02
    c['hist'] = []
    for _ in range(g.int(2, 6)):
        hows = ['plain', 'plain']
        if c['kind'] == 'kf':
            hows += ['correlated', 'steady']
        c['hist'].append({'z': g.vec(c['m'], 5.), 'how': g.choice(hows), 'p': g.prob(6),
                          'none': g.choice(['', '', '', '', 'before', 'between']),
                          'read': [g.choice(NAMES) for _ in range(g.choice([0, 1, 2, 4]))]})
    return c


def check_order(c, ctx):
    kind = c['kind']
    ad = filters.A(kind, c)
    f = ad.f
    if kind == 'kf':
        f.M = c['M'].copy()
    seen = set()
    for i, h in enumerate(c['hist']):
        if h['none'] == 'before':
            ad.update(None)
        if h['p'] or kind in filters.SIGMA:
            ad.predict()
        if h['none'] == 'between':
            ad.update(None)
        x, P, H, R = ad.x().reshape(-1, 1), ad.P(), c['H'], c['R']
        how = h['how']
        if how == 'steady' and not np.abs(np.asarray(f.S)).max() > 0:
            how = 'plain'               # no full update has stored a gain yet
        if how == 'correlated' and np.linalg.eigvalsh(
                np.block([[P, c['M']], [c['M'].T, R]]))[0] < 1e-3 * np.abs(P).max():
            how = 'plain'               # no such correlation exists
        y = ref.col(h['z']) - H.dot(x)
        S = H.dot(P).dot(H.T) + R
        z = ad.zarg(h['z'])
        if how == 'correlated':
            S = S + H.dot(c['M']) + c['M'].T.dot(H.T)
            f.update_correlated(z)
        elif how == 'steady':
            S = np.array(f.S)
            f.update_steadystate(z)
        else:
            ad.update(h['z'])
        seen.add(how)
        ll, d2 = ref.gauss_logpdf(y, S), ref.maha(y, S) ** 2
        tol = 1e-6 * (10. + 10 * d2 + abs(ll))
        if np.linalg.cond(S) > 1e6:
            return
        for name in h['read']:
            if not hasattr(f, name):
                continue
            v = float(getattr(f, name))
            if name == 'log_likelihood':
                require(abs(v - ll) <= tol, '%s %s update %d: log-likelihood %r, expected %r', kind, how,
                        i, v, ll)
            elif name == 'likelihood':
                w = max(math.exp(max(ll, -800.)), sys.float_info.min)
                require(v > 0 and abs(v - w) <= max(10 * tol, 1e-9) * w + 1e-300,
                        '%s %s update %d: likelihood %r, expected %r', kind, how, i, v, w)
            else:
                require(abs(v * v - d2) <= tol, '%s %s update %d: Mahalanobis distance %r, expected %r',
                        kind, how, i, v, math.sqrt(d2))
            seen.add(name)
    ctx.label(kind, *sorted(seen))
    ctx.nt(len(seen) > 2)


SUBS = [Sub('classes', gen, check, 1500), Sub('function', gen_fun, check_fun, 600),
        Sub('residual', gen_res, check_res, 200),
        Sub('order', gen_order, check_order, 2000)]
