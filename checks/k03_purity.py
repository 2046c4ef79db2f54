"""No hidden side effects: inputs, recorded snapshots and other objects stay untouched."""
import contextlib
import copy
import inspect
import io
import os
import random
import warnings
import numpy as np
from filterpy import common, kalman, stats, monte_carlo, discrete_bayes, gh, memory, leastsq
from filterpy.kalman import IMMEstimator, MMAEFilterBank, KalmanFilter, EnsembleKalmanFilter
from filterpy.hinfinity import HInfinityFilter
from filterpy.kalman import FixedLagSmoother
from vlib import filters, lin
from vlib.harness import Sub, same, require, Violation, G

PROPERTY = 'K03'
RULE = ('Random histories on every filter class (and random calls of every pure function) with '
        'all arguments, assigned matrices, recorded priors/posteriors/measurements, query calls '
        'and a second interleaved object compared bit for bit; non-trivial: at least one '
        'real update (or an array argument).')


def freeze(d):
    return {k: np.array(v, copy=True) for k, v in d.items()}


def check_frozen(d, fr, what):
    for k in fr:
        same(d[k], fr[k], '%s %s' % (what, k))


LAZY = ('_log_likelihood', '_likelihood', '_mahalanobis')


def state(f):
    out = {}
    for k, v in vars(f).items():
        if k in LAZY or callable(v) or k in ('filters',):
            continue
        if v is None or isinstance(v, (int, float, np.ndarray, np.floating)):
            out[k] = copy.deepcopy(v)
    return out


def check_state(f, st, what):
    for k, v in st.items():
        same(getattr(f, k), v, '%s changed attribute %s:' % (what, k))


# ---------------------------------------------------------------- filter classes
def gen(g):
    c = filters.model(g)
    c['kind'] = g.choice(filters.ALL)
    c['hist'] = filters.history(g, c, 1, 5)
    c['n_intruder'] = g.int(1, 4)
    c['seed'] = g.int(0, 999)
    return c


def queries(f, c, kind, ad):
    """(name, call) of everything that only reports"""
    q = [('repr', lambda: repr(f))]
    zz = np.arange(1., c['m'] + 1)
    z = ad.zarg(zz)
    if hasattr(f, 'get_prediction'):
        q.append(('get_prediction', lambda: f.get_prediction()))
        if c['B'] is not None:
            u = lin.shape_x(np.ones(c['B'].shape[1]), c['layout'])
            q.append(('get_prediction(u)', lambda: f.get_prediction(u)))
    if hasattr(f, 'get_update'):
        q.append(('get_update', lambda: f.get_update(z)))
    if hasattr(f, 'residual_of'):
        q.append(('residual_of', lambda: f.residual_of(z)))
    if hasattr(f, 'measurement_of_state'):
        q.append(('measurement_of_state', lambda: f.measurement_of_state(f.x)))
    if kind == 'kf':
        q.append(('log_likelihood_of', lambda: f.log_likelihood_of(z.ravel())))
        q.append(('test_matrix_dimensions', lambda: f.test_matrix_dimensions()))
    for p in ('likelihood', 'log_likelihood', 'mahalanobis', 'P', 'Q', 'R', 'P_prior', 'S', 'SI'):
        if isinstance(inspect.getattr_static(type(f), p, None), property):
            q.append((p, lambda p=p: getattr(f, p)))
    return q


def check_class(c, ctx):
    kind = c['kind']
    ad = filters.A(kind, c)
    ref_ad = filters.A(kind, c)          # same history, nothing else done to it
    c2 = dict(c)
    c2['x0'], c2['P0'] = c['x0'] * 2 + 1, c['P0'] * 3
    c2['F'] = c['F'] * .5
    other = filters.A(kind, c2)          # interleaved with `ad`
    given = freeze(ad.given)
    nu = 0
    for i, (u, z) in enumerate(c['hist']):
        uu = None if u is None else np.array(u)
        ad.predict(uu)
        same(uu, u, 'control vector')
        check_frozen(ad.given, given, 'predict() modified the assigned')
        ref_ad.predict(u)
        other.predict(u)
        xp, Pp = ad.x_prior(), ad.P_prior()
        same(xp, ad.x(), 'x_prior after predict')
        for name, q in (queries(ad.f, c, kind, ad) if nu else []):
            st = state(ad.f)
            a = q()
            check_state(ad.f, st, name)
            b = q()
            if isinstance(a, (float, np.ndarray)):
                same(b, a, 'second call of ' + name)
        zz = ad.zarg(z)
        keep = None if zz is None else zz.copy()
        ad.update(z, zraw=zz)
        same(zz, keep, 'measurement passed to update()')
        check_frozen(ad.given, given, 'update() modified the assigned')
        same(ad.x_prior(), xp, 'x_prior after update')
        same(ad.P_prior(), Pp, 'P_prior after update')
        same(ad.x_post(), ad.x(), 'x_post after update')
        if kind == 'if':
            same(ad.f.P_inv_post, ad.f.P_inv, 'P_inv_post after update')
        else:
            same(ad.P_post(), ad.P(), 'P_post after update')
        ref_ad.update(z)
        for _ in range(c['n_intruder'] if i == 0 and kind in filters.COLUMN else 1):
            other.update(np.ones(c['m']) if z is None else z + 1)
        if z is not None:
            nu += 1
            rec = np.array(ad.f.z, dtype=float)
            same(rec.ravel(), np.asarray(z, dtype=float), 'recorded measurement')
            zz += 1000.
            same(np.array(ad.f.z, dtype=float), rec, 'recorded measurement after the caller '
                 'changed its own array')
        same(ad.x(), ref_ad.x(), '%s state of a filter used alongside another one' % kind)
        same(ad.P(), ref_ad.P(), '%s covariance of a filter used alongside another one' % kind)
    # recorded snapshots do not follow in-place edits of the current estimate
    snap = [ad.x_prior(), ad.x_post(), ad.P_prior(), ad.P_post()]
    ad.f.x[...] = 77.
    if kind == 'if':
        ad.f.P_inv[...] = np.eye(c['n']) * 55.
    elif kind != 'srkf':
        ad.f.P[...] = 66.
    for a, b, w in zip([ad.x_prior(), ad.x_post(), ad.P_prior(), ad.P_post()], snap,
                       ['x_prior', 'x_post', 'P_prior', 'P_post']):
        same(a, b, '%s after editing the current estimate in place:' % w)
    same(ref_ad.x(), ref_ad.x_post(), 'posterior of an untouched filter')
    ctx.label(kind, c['layout'])
    ctx.nt(nu > 0)


# ---------------------------------------------------------------- banks and ensembles
def gen_bank(g):
    c = filters.model(g, 3, 2)
    c['bank'] = g.choice(['imm', 'mmae', 'enkf', 'hinf', 'fls', 'batch'])
    c['k'] = g.int(2, 3)
    c['mu'] = 0.1 + np.abs(g.floats(c['k'], 1.))
    M = 0.1 + np.abs(g.floats(c['k'] ** 2, 1.)).reshape(c['k'], c['k'])
    c['M'] = M / M.sum(axis=1, keepdims=True)
    c['hist'] = filters.history(g, c, 1, 4)
    c['seed'] = g.int(0, 9999)
    return c


def sub_filters(c):
    out = []
    for i in range(c['k']):
        d = dict(c)
        d['Q'] = c['Q'] * (i + 1.)
        out.append(filters.A('kf', d))
    return out


def check_bank(c, ctx):
    m, n = c['m'], c['n']
    col = c['layout'] == 'col'
    zs = [None if z is None else lin.shape_x(z, c['layout']) for _, z in c['hist']]
    keep = copy.deepcopy(zs)
    if c['bank'] in ('imm', 'mmae'):
        ads = sub_filters(c)
        mu = c['mu'] / c['mu'].sum()
        M = c['M'].copy()
        given = [freeze(a.given) for a in ads]
        mu0, M0 = mu.copy(), M.copy()
        if c['bank'] == 'imm':
            b = IMMEstimator([a.f for a in ads], mu, M)
        else:
            b = MMAEFilterBank([a.f for a in ads], mu, n, H=ads[0].given['H'])
        for z in zs:
            if c['bank'] == 'imm':
                b.predict()
            else:
                b.predict(None)
            xp, Pp = np.array(b.x_prior), np.array(b.P_prior)
            b.update(z)
            same(b.x_prior, xp, 'bank x_prior after update')
            same(b.P_prior, Pp, 'bank P_prior after update')
            same(b.x_post, b.x, 'bank x_post')
            st = state(b)
            repr(b)
            check_state(b, st, 'repr')
        same(mu, mu0, 'initial probabilities')
        same(M, M0, 'transition matrix')
        for a, fr in zip(ads, given):
            check_frozen(a.given, fr, 'the bank modified the assigned')
        xq = np.array(b.x_post)
        b.x[...] = 7.
        same(b.x_post, xq, 'bank x_post after an in-place edit of x')
    elif c['bank'] == 'enkf':
        x0, P0 = c['x0'].copy(), c['P0'].copy()
        H, F = c['H'], c['F']
        np.random.seed(c['seed'])
        f = EnsembleKalmanFilter(x0, P0, m, 1., 12, lambda x: H.dot(x), lambda x, dt: F.dot(x))
        Q, R = c['Q'].copy(), c['R'].copy()
        f.Q, f.R = Q, R
        for _, z in c['hist']:
            f.predict()
            xp, Pp = f.x_prior.copy(), f.P_prior.copy()
            same(xp, f.x, 'ensemble x_prior')
            zz = None if z is None else z.copy()
            f.update(zz)
            same(zz, z, 'ensemble measurement')
            same(f.x_prior, xp, 'ensemble x_prior after update')
            same(f.P_prior, Pp, 'ensemble P_prior after update')
            same(f.x_post, f.x, 'ensemble x_post')
        same(x0, c['x0'], 'ensemble initial state')
        same(P0, c['P0'], 'ensemble initial covariance')
        same(Q, c['Q'], 'ensemble Q')
        same(R, c['R'], 'ensemble R')
    elif c['bank'] == 'hinf':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = HInfinityFilter(n, m, 0, 0.001)
        mats = {'x': c['x0'].reshape(-1, 1).copy(), 'P': c['P0'].copy(), 'F': c['F'].copy(),
                'H': c['H'].copy(), 'Q': c['Q'].copy(), 'W': c['Q'] * .1, 'V': c['R'].copy()}
        fr = freeze(mats)
        for k, v in mats.items():
            setattr(f, k, v)
        for _, z in c['hist']:
            f.predict()
            zz = None if z is None else z.reshape(-1, 1).copy()
            kz = None if zz is None else zz.copy()
            f.update(zz)
            same(zz, kz, 'H-infinity measurement')
            if zz is not None:
                zz += 100.
                same(f.z, kz, 'H-infinity recorded measurement')
        check_frozen(mats, fr, 'H-infinity modified')
    elif c['bank'] == 'fls':
        f = FixedLagSmoother(n, m, N=2)
        mats = {'x': c['x0'].reshape(-1, 1).copy(), 'P': c['P0'].copy(), 'F': c['F'].copy(),
                'H': c['H'].copy(), 'Q': c['Q'].copy(), 'R': c['R'].copy()}
        fr = freeze(mats)
        for k, v in mats.items():
            setattr(f, k, v)
        z3 = [np.ones((m, 1)) * i if z is None else z.reshape(-1, 1).copy()
              for i, (_, z) in enumerate(c['hist'])]
        k3 = copy.deepcopy(z3)
        st = state(f)
        f.smooth_batch(z3, 2)
        check_state(f, st, 'smooth_batch')
        for z in z3:
            f.smooth(z)
        check_frozen(mats, fr, 'fixed-lag smoother modified')
        for a, b in zip(z3, k3):
            same(a, b, 'fixed-lag measurement')
    else:
        a = filters.A('kf', c)
        fr = freeze(a.given)
        r = a.f.batch_filter(zs)
        kept = [v.copy() for v in r]
        sm = a.f.rts_smoother(r[0], r[1])
        for i, (v, w) in enumerate(zip(r, kept)):
            same(v, w, 'result %d of batch_filter after rts_smoother' % i)
        ks = [v.copy() for v in sm]
        a.predict()
        a.update(np.ones(m))
        a.f.x[...] = 9.
        a.f.P[...] = 9.
        for i, (v, w) in enumerate(zip(r, kept)):
            same(v, w, 'result %d of batch_filter after further filtering' % i)
        for i, (v, w) in enumerate(zip(sm, ks)):
            same(v, w, 'result %d of rts_smoother' % i)
        check_frozen(a.given, fr, 'batch_filter modified the assigned')
        # the function forms
        x, P = lin.shape_x(c['x0'], c['layout']), c['P0'].copy()
        k = len(zs)
        args = [[c[q].copy() for _ in range(k)] for q in 'FQHR']
        ka = copy.deepcopy(args)
        r = kalman.batch_filter(x, P, zs, *args)
        r2 = [v.copy() for v in r]
        kalman.rts_smoother(r[0], r[1], args[0], args[1])
        for i, (v, w) in enumerate(zip(r, r2)):
            same(v, w, 'result %d of batch_filter()' % i)
        same(x, lin.shape_x(c['x0'], c['layout']), 'initial state of batch_filter()')
        same(P, c['P0'], 'initial covariance of batch_filter()')
        for q, w in zip(args, ka):
            for v1, v2 in zip(q, w):
                same(v1, v2, 'matrix list of batch_filter()')
    for a, b in zip(zs, keep):
        same(a, b, 'measurement list')
    ctx.label(c['bank'])
    ctx.nt(any(z is not None for z in zs))


# ---------------------------------------------------------------- functions
def w_(g, n):
    w = np.abs(g.floats(n, 1.)) + 1e-3
    return w / w.sum()


FUN = {
    'update': lambda g, n: (kalman.update, [g.vec(n), g.spd(n), g.vec(2), g.spd(2), g.mat(2, n)]),
    'predict': lambda g, n: (kalman.predict, [g.vec(n), g.spd(n), g.trans(n), g.spd(n), g.vec(2),
                                              g.mat(n, 2)]),
    'update_steadystate': lambda g, n: (kalman.update_steadystate, [
        g.vec(n), g.vec(2), g.mat(n, 2), g.mat(2, n)]),
    'predict_steadystate': lambda g, n: (kalman.predict_steadystate, [
        g.vec(n), g.trans(n), g.vec(2), g.mat(n, 2)]),
    'unscented_transform': lambda g, n: (kalman.unscented_transform, [
        g.mat(5, n), w_(g, 5), w_(g, 5), g.spd(n)]),
    'gaussian': lambda g, n: (stats.gaussian, [g.vec(n), 1., 2.]),
    'mul': lambda g, n: (stats.mul, [g.vec(n), np.abs(g.vec(n)) + 1, g.vec(n), np.abs(g.vec(n)) + 1]),
    'multivariate_multiply': lambda g, n: (stats.multivariate_multiply, [
        g.vec(n), g.spd(n), g.vec(n), g.spd(n)]),
    'multivariate_gaussian': lambda g, n: (stats.multivariate_gaussian, [
        g.vec(n), g.vec(n), g.spd(n)]),
    'logpdf': lambda g, n: (stats.logpdf, [g.vec(n), g.vec(n), g.spd(n)]),
    'log_likelihood': lambda g, n: (stats.log_likelihood, [
        g.vec(2), g.vec(n), g.spd(n), g.mat(2, n), g.spd(2)]),
    'mahalanobis': lambda g, n: (stats.mahalanobis, [g.vec(n), g.vec(n), g.spd(n)]),
    'NEES': lambda g, n: (stats.NEES, [g.mat(4, n), g.mat(4, n), np.array([g.spd(n)] * 4)]),
    'covariance_ellipse': lambda g, n: (stats.covariance_ellipse, [g.spd(2)]),
    'residual_resample': lambda g, n: (monte_carlo.residual_resample, [w_(g, n + 1)]),
    'stratified_resample': lambda g, n: (monte_carlo.stratified_resample, [w_(g, n + 1)]),
    'systematic_resample': lambda g, n: (monte_carlo.systematic_resample, [w_(g, n + 1)]),
    'multinomial_resample': lambda g, n: (monte_carlo.multinomial_resample, [w_(g, n + 1)]),
    'bayes update': lambda g, n: (discrete_bayes.update, [np.abs(g.vec(n)) + 1, w_(g, n)]),
    'bayes predict': lambda g, n: (discrete_bayes.predict, [w_(g, n + 3), 1, w_(g, 3)]),
    'bayes predict const': lambda g, n: (discrete_bayes.predict, [
        w_(g, n + 3), 1, w_(g, 3), 'constant']),
    'order_by_derivative': lambda g, n: (common.order_by_derivative, [g.mat(n, n), n, 2]),
    'van_loan': lambda g, n: (common.van_loan_discretization, [g.mat(n, n), g.mat(n, 1), .1]),
    'linear_ode': lambda g, n: (common.linear_ode_discretation, [
        g.mat(n, n), np.eye(n), g.spd(n), .1]),
    'runge_kutta4': lambda g, n: (common.runge_kutta4, [g.vec(n), .5, .1, lambda y, x: y * .5 + x]),
    'inv_diagonal': lambda g, n: (common.inv_diagonal, [np.diag(np.abs(g.vec(n)) + 1)]),
    'outer_product_sum': lambda g, n: (common.outer_product_sum, [g.mat(4, n), g.mat(4, 2)]),
    'reshape_z': lambda g, n: (common.reshape_z, [g.vec(n), n, 2]),
    'sigma points merwe': lambda g, n: (kalman.MerweScaledSigmaPoints(n, .5, 2., 1.).sigma_points,
                                        [g.vec(n), g.spd(n)]),
    'sigma points julier': lambda g, n: (kalman.JulierSigmaPoints(n, 1.).sigma_points,
                                         [g.vec(n), g.spd(n)]),
    'sigma points simplex': lambda g, n: (kalman.SimplexSigmaPoints(n).sigma_points,
                                          [g.vec(n), g.spd(n)]),
    'spherical radial': lambda g, n: (kalman.CubatureKalmanFilter.__init__.__globals__[
        'spherical_radial_sigmas'], [g.vec(n), g.spd(n)]),
    'gh batch': lambda g, n: (gh.GHFilter(0., 0., 1., .5, .2).batch_filter, [g.vec(n + 1)]),
    'ghk batch': lambda g, n: (gh.GHKFilter(0., 0., 0., 1., .5, .2, .1).batch_filter,
                               [g.vec(n + 1)]),
    'gh order update': lambda g, n: (lambda x0: gh.GHFilterOrder(x0, 1., 1, .5, .2).update(3.),
                                     [g.vec(2)]),
    'fading memory update': lambda g, n: (lambda x0: memory.FadingMemoryFilter(x0, 1., 2, .5)
                                          .update(3.), [g.vec(3)]),
}

FUN.update({
    'state_transition': lambda g, n: (common.kinematic_state_transition, [n, .5]),
    'Q_discrete': lambda g, n: (common.Q_discrete_white_noise, [max(2, n), .5, 2.]),
    'Q_discrete blocks': lambda g, n: (common.Q_discrete_white_noise, [2, .5, 2., n, False]),
    'Q_continuous': lambda g, n: (common.Q_continuous_white_noise, [max(2, n), .5, 2.]),
    'kinematic_kf': lambda g, n: (lambda *a: [getattr(common.kinematic_kf(*a), k) for k in (
        'x', 'P', 'F', 'Q', 'R', 'H')], [1, n - 1, .5]),
    'optimal_noise': lambda g, n: (gh.optimal_noise_smoothing, [.5]),
    'bayes normalize': lambda g, n: (lambda p: discrete_bayes.normalize(p.copy()), [np.abs(g.vec(n)) + 1]),
    'mul_pdf': lambda g, n: (stats.mul_pdf, [1., 2., 3., 4.]),
    'add': lambda g, n: (stats.add, [g.vec(n), g.vec(n), g.vec(n), g.vec(n)]),
    'likelihood': lambda g, n: (stats.likelihood, [
        g.vec(2), g.vec(n), g.spd(n), g.mat(2, n), g.spd(2)]),
    'rts_smoother': lambda g, n: (kalman.rts_smoother, [
        g.mat(3, n), np.array([g.spd(n) for _ in range(3)]), [g.trans(n) for _ in range(3)],
        [g.spd(n) for _ in range(3)]]),
    'batch_filter': lambda g, n: (kalman.batch_filter, [
        g.vec(n), g.spd(n), [g.vec(2) for _ in range(2)], [g.trans(n) for _ in range(2)],
        [g.spd(n) for _ in range(2)], [g.mat(2, n) for _ in range(2)], [g.spd(2) for _ in range(2)]]),
    'ckf_transform': lambda g, n: (kalman.CubatureKalmanFilter.__init__.__globals__[
        'ckf_transform'], [g.mat(2 * n, n), g.spd(n)]),
})


class _Rec(object):
    """records generated arguments so that a case is plain data"""


def gen_fun(g):
    name = g.choice(sorted(FUN))
    n = g.int(1, 4)
    # draw through a scripted copy: store only the draws needed to rebuild the arguments
    fn, args = FUN[name](g, n)
    return {'name': name, 'n': n, 'args': [None if callable(a) else a for a in args],
            'then': [None if callable(a) else a for a in FUN[name](g, n)[1]],
            'seed': g.int(0, 999)}


class _Fake(object):
    """stands in for G when only the function (not its arguments) is wanted"""

    def vec(self, n, hi=1.):
        return np.zeros(n)

    floats = vec

    def mat(self, n, m, hi=1.):
        return np.zeros((n, m))

    def spd(self, n, *a):
        return np.eye(n)

    def trans(self, n):
        return np.eye(n)


def leaves(r):
    return [v for e in r for v in leaves(e)] if isinstance(r, (tuple, list)) else [r]


def write(a, b):
    """gives the arrays of a the values of b, in place"""
    if isinstance(a, np.ndarray):
        a[...] = b
    elif isinstance(a, list):
        for v, w in zip(a, b):
            write(v, w)


def check_fun(c, ctx):
    fn, dflt = FUN[c['name']](_Fake(), c['n'])
    args = [d if callable(d) else a for a, d in zip(c['args'], dflt)]
    keep = copy.deepcopy([None if callable(a) else a for a in args])
    np.random.seed(c['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r1 = copy.deepcopy(fn(*args))
        for a, k in zip(args, keep):
            if k is not None and not isinstance(k, str):
                same(a, k, 'argument of ' + c['name'])
        np.random.seed(c['seed'])
        r2 = fn(*args)
    t1 = r1 if isinstance(r1, tuple) else (r1,)
    t2 = r2 if isinstance(r2, tuple) else (r2,)
    for a, b in zip(t1, t2):
        if isinstance(a, (np.ndarray, float, np.floating)):
            same(b, a, 'second call of %s with the same arguments' % c['name'])
    # a result belongs to the caller; a later call sees the values its arguments then have
    def call(f, a):
        np.random.seed(c['seed'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return leaves(f(*a))
    r1 = leaves(r1)
    for v in leaves(r2):
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == 'f':
            v[...] = 7.5
    for a, b in zip(args, keep):
        write(a, b)
    for b, a in zip(call(fn, args), r1):
        if isinstance(a, (np.ndarray, float, np.floating)):
            same(b, a, '%s again, its earlier result overwritten:' % c['name'])
    for a, b in zip(args, c['then']):
        write(a, b)
    other, dflt = FUN[c['name']](_Fake(), c['n'])
    fresh = [d if callable(d) else copy.deepcopy(a) for a, d in zip(c['then'], dflt)]
    for b, a in zip(call(fn, args), call(other, fresh)):
        if isinstance(a, (np.ndarray, float, np.floating)):
            same(b, a, '%s, its arguments edited in place:' % c['name'])
    ctx.label(c['name'])
    ctx.nt(any(isinstance(a, np.ndarray) and a.size > 1 for a in args))


# ---------------------------------------------------------------- results handed out earlier
NAMES = ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post', 'z', 'P_inv', 'P_inv_prior',
         'P_inv_post', 'P1_2', 'mu', 'p', 'dx', 'ddx', 'x_prediction', 'dx_prediction')
OTHER = ('imm', 'mmae', 'enkf', 'hinf', 'fls', 'gh', 'ghk', 'order', 'memory', 'lsq')


def gen_held(g):
    c = filters.model(g, 3, 2)
    c['who'] = g.choice(list(filters.ALL) + list(OTHER))
    c['hist'] = filters.history(g, c, 2, 6, 1)
    c['order'] = g.int(0, 2)
    c['scalar'] = g.bool()
    c['seed'] = g.int(0, 9999)
    c['k'] = 2
    # the user edits the estimate in place at some moments; also other ways to take a step
    c['edit'] = [[g.choice(('x', 'P', 'P_inv', 'mu', 'p', 'dx')) if g.prob(4) else None for _ in range(2)]
                 for _ in range(len(c['hist']) + 1)]
    c['op'] = [g.choice(('', '', 'steady', 'correlated')) for _ in c['hist']]
    c['anew'] = [g.prob(2) for _ in c['hist']]      # the estimate starts over before this step
    return c


def restart(f, who):
    if who == 'lsq':
        f.reset()
    elif who == 'enkf':
        f.initialize(np.array(f.x) + 1., np.eye(len(f.x)))
    elif who not in ('imm', 'mmae', 'fls'):
        f.x = np.array(f.x) + 1. if isinstance(f.x, np.ndarray) else f.x + 1.
        if who == 'if':
            f.P_inv = np.eye(f.x.shape[0])
        elif isinstance(getattr(f, 'P', None), np.ndarray) and np.ndim(f.P) == 2:
            f.P = np.eye(f.x.shape[0])


def build(c):
    """(object, predict(u) or None, update(z))"""
    who, n, m = c['who'], c['n'], c['m']
    col = lambda z: None if z is None else z.reshape(-1, 1).copy()
    if who in filters.ALL:
        a = filters.A(who, c)
        return a.f, a.predict, a.update
    if who in ('imm', 'mmae'):
        ads = sub_filters(c)
        M = np.array([[.9, .1], [.3, .7]])
        b = IMMEstimator([a.f for a in ads], np.array([.4, .6]), M) if who == 'imm' else \
            MMAEFilterBank([a.f for a in ads], np.array([.4, .6]), n, H=ads[0].given['H'])
        return b, lambda u: b.predict(None), lambda z: b.update(
            None if z is None else lin.shape_x(z, c['layout']))
    if who == 'enkf':
        np.random.seed(c['seed'])
        f = EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), m, 1., 8, lambda x: c['H'].dot(x),
                                 lambda x, dt: c['F'].dot(x))
        f.Q, f.R = c['Q'].copy(), c['R'].copy()
        return f, lambda u: f.predict(), f.update
    if who == 'hinf':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = HInfinityFilter(n, m, 0, 0.001)
        f.x, f.P, f.F, f.H = c['x0'].reshape(-1, 1).copy(), c['P0'].copy(), c['F'], c['H']
        f.Q, f.W, f.V = c['Q'], c['Q'] * .1, c['R']
        return f, lambda u: f.predict(), lambda z: f.update(col(z))
    if who == 'fls':
        f = FixedLagSmoother(n, m, N=2)
        f.x, f.P, f.F, f.H = c['x0'].reshape(-1, 1).copy(), c['P0'].copy(), c['F'], c['H']
        f.Q, f.R = c['Q'], c['R']
        return f, lambda u: None, lambda z: f.smooth(col(np.zeros(m) if z is None else z))
    val = (lambda z: float(z[0])) if c['scalar'] or who in ('order', 'memory', 'lsq') else \
        (lambda z: z.copy())
    x0 = val(c['hist'][0][1] * 0 + 1. if c['hist'][0][1] is not None else np.ones(m))
    f = {'gh': lambda: gh.GHFilter(x0, x0 * 1, 1., .5, .2),
         'ghk': lambda: gh.GHKFilter(x0, x0 * 1, x0 * 1, 1., .5, .2, .1),
         'order': lambda: gh.GHFilterOrder(np.arange(1., c['order'] + 2), 1., c['order'], .5, .2, .1),
         'memory': lambda: memory.FadingMemoryFilter(np.arange(1., c['order'] + 2), 1., c['order'], .6),
         'lsq': lambda: leastsq.LeastSquaresFilter(1., c['order'])}[who]()
    return f, lambda u: None, lambda z: f.update(val(np.zeros(m) if z is None else z))


def edit(f, name, held, what):
    """change the current estimate in place: nothing recorded or returned earlier may follow"""
    v = getattr(f, name, None) if name else None
    if not isinstance(v, np.ndarray) or not v.size or not v.flags.writeable or v.dtype.kind != 'f' or \
            isinstance(inspect.getattr_static(type(f), name, None), property):
        return 0
    others = {k: np.array(getattr(f, k), copy=True) for k in NAMES
              if k != name and isinstance(getattr(f, k, None), np.ndarray)
              and not isinstance(inspect.getattr_static(type(f), k, None), property)}
    own = [q for q in held if q[1] is v or q[1].base is v]
    v *= 1.5
    for k, w in others.items():
        same(getattr(f, k), w, '%s: editing %s in place changed %s' % (what, name, k))
    for q in own:
        held.remove(q)
    for w, q, r in held:
        if not w.endswith(' returned'):
            same(q, r, '%s: editing %s in place changed %s' % (what, name, w))
    return 1


def check_held(c, ctx):
    """whatever was read from an object, or returned by it, keeps its values"""
    f, predict, update = build(c)
    held = []
    edits = 0

    def hold(when, ret=None):
        for name in NAMES:
            v = getattr(f, name, None)
            if isinstance(v, np.ndarray) and v.size and not any(v is q[1] for q in held):
                held.append((when + ' ' + name, v, v.copy()))
        for i, r in enumerate(ret if isinstance(ret, tuple) else (ret,)):
            if isinstance(r, np.ndarray) and not any(r is q[1] for q in held):
                held.append(('%s result %d returned' % (when, i), r, r.copy()))

    def tamper(i, j):
        n = edit(f, c['edit'][i][j], held, '%s, step %d' % (c['who'], i))
        if n:                       # results that are the current estimate itself followed it
            held[:] = [q for q in held if not q[0].endswith(' returned')]
        return n

    hold('initial')
    if c['who'] not in ('gh', 'ghk'):    # their first prediction is the state given by the caller
        edits += tamper(-1, 0)
    for i, (u, z) in enumerate(c['hist']):
        op = c['op'][i] if c['who'] == 'kf' else ''
        zz = None if z is None else lin.shape_x(z, c['layout'])
        if c['anew'][i]:
            restart(f, c['who'])
            for what, v, w in held:
                same(v, w, '%s %s, after starting over before step %d:' % (c['who'], what, i))
            hold('restart %d' % i)
            ctx.label('started over')
        if op == 'steady':
            hold('predict %d' % i, f.predict_steadystate())
        else:
            hold('predict %d' % i, predict(u))
        if c['who'] not in ('gh', 'ghk'):
            edits += tamper(i, 0)
        if op == 'steady':
            hold('update %d' % i, f.update_steadystate(zz))
        elif op == 'correlated':
            hold('update %d' % i, f.update_correlated(zz))
        else:
            hold('update %d' % i, update(z))
        for what, v, w in held:
            same(v, w, '%s %s, read before step %d:' % (c['who'], what, i))
        edits += tamper(i, 1)
    ctx.label(c['who'])
    if edits:
        ctx.label('estimate edited in place')
    ctx.nt(sum(z is not None for _, z in c['hist']) > 1)


# ---------------------------------------------------------------- the process as a whole
def gen_global(g):
    c = filters.model(g, 3, 2)
    c['who'] = g.choice(filters.ALL + filters.OTHER)
    c['hist'] = filters.history(g, c, 1, 4, 1)
    c['order'], c['scalar'], c['seed'] = g.int(0, 2), g.bool(), g.int(0, 999)
    return c


def process_state():
    return (repr(np.geterr()), repr(sorted(np.get_printoptions().items())), repr(warnings.filters),
            repr(random.getstate()), repr(np.random.get_state()), os.getcwd(), repr(sorted(os.environ.items())))


def check_global(c, ctx):
    """filtering neither prints nor touches random generators, warnings or numpy's settings"""
    who = c['who']
    random.seed(c['seed'])
    np.random.seed(c['seed'])
    out = io.StringIO()
    before = process_state()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        o = filters.A(who, c) if who in filters.ALL else filters.W(who, c)
        for u, z in c['hist']:
            o.predict(u)
            o.update(z)
        repr(o.f)
        common.Saver(o.f).save()
        for p in ('likelihood', 'log_likelihood', 'mahalanobis', 'P', 'S'):
            getattr(o.f, p, None)
    after = process_state()
    names = ('numpy error handling', 'numpy print options', 'warning filters', 'state of module random',
             'state of numpy.random', 'working directory', 'environment')
    for n, a, b in zip(names, before, after):
        # the ensemble filter draws from numpy.random, which is its documented source
        require(a == b or (who == 'enkf' and n == 'state of numpy.random'), '%s changed the %s', who, n)
    require(out.getvalue() == '', '%s printed %r', who, out.getvalue()[:200])
    ctx.label(who)
    ctx.nt(any(z is not None for _, z in c['hist']))


SUBS = [Sub('classes', gen, check_class, 900),
        Sub('banks', gen_bank, check_bank, 600),
        Sub('functions', gen_fun, check_fun, 1500),
        Sub('held', gen_held, check_held, 1500),
        Sub('process', gen_global, check_global, 500)]
