"""Estimates do not depend on the coordinates a problem is written in."""
import copy
import warnings
import numpy as np
from filterpy import kalman
from filterpy.gh import GHFilter, GHKFilter
from filterpy.kalman import (CubatureKalmanFilter, EnsembleKalmanFilter,
                             ExtendedKalmanFilter, FixedLagSmoother,
                             IMMEstimator, JulierSigmaPoints, KalmanFilter, MerweScaledSigmaPoints,
                             MMAEFilterBank, SimplexSigmaPoints, UnscentedKalmanFilter)
from filterpy.leastsq import LeastSquaresFilter
from filterpy.memory import FadingMemoryFilter
from vlib import filters, lin
from vlib.harness import Sub, close, require

PROPERTY = 'E01'
RULE = ('Random models run twice, once as given and once rewritten in other coordinates (new units, '
        'reordered or rotated or mixed components, a shifted origin) or next to an independent second '
        'problem; all filter classes, smoothers and banks; non-trivial: at least two measurements '
        'and a rewriting that is not a plain rescaling.')


def change(g, n, kinds=('scale', 'perm', 'rot', 'shear', 'mix')):
    """an invertible, well-conditioned matrix"""
    k = g.choice(list(kinds))
    if k == 'scale':
        return k, np.diag([g.logfloat(.05, 20.) for _ in range(n)])
    if k == 'perm':
        return k, np.eye(n)[g.perm(n)]
    Q, _ = np.linalg.qr(g.mat(n, n) + 3. * np.eye(n))
    if k == 'rot':
        return k, Q
    if k == 'shear':
        return k, np.eye(n) + np.tril(g.mat(n, n), -1) / 3.
    return k, Q.dot(np.diag([g.logfloat(.2, 5.) for _ in range(n)])).dot(np.eye(n)[g.perm(n)])


def rewrite(c, T, U):
    Ti = np.linalg.inv(T)
    d = dict(c)
    d.update(x0=T.dot(c['x0']), P0=T.dot(c['P0']).dot(T.T), F=T.dot(c['F']).dot(Ti),
             Q=T.dot(c['Q']).dot(T.T), H=U.dot(c['H']).dot(Ti), R=U.dot(c['R']).dot(U.T))
    for k in ('P0', 'Q', 'R'):
        d[k] = .5 * (d[k] + d[k].T)
    if c['B'] is not None:
        d['B'] = T.dot(c['B'])
    return d


def gen_linear(g):
    c = filters.model(g, 4, 3)
    c['alpha'] = g.choice([1., 1.1, 1.02])
    c['kind'] = g.choice(list(filters.ALL))
    c['tk'], c['T'] = change(g, c['n'])
    c['uk'], c['U'] = change(g, c['m'])
    c['hist'] = filters.history(g, c, 1, 8, 1)
    return c


def big(*a):
    return max([1.] + [float(np.abs(v).max()) for v in a])


def check_linear(c, ctx):
    T, U = c['T'], c['U']
    Ti, Ui = np.linalg.inv(T), np.linalg.inv(U)
    kind = c['kind']
    a, b = filters.A(kind, c), filters.A(kind, rewrite(c, T, U))
    nz = sum(z is not None for _, z in c['hist'])
    ctx.label(kind, c['tk'])
    ctx.nt(nz > 1 and c['tk'] != 'scale')
    sp = big(c['P0'])
    for u, z in c['hist']:
        for f, w in ((a, z), (b, None if z is None else U.dot(z))):
            f.predict(u)
            sp = max(sp, np.abs(a.P()).max())
            f.update(w)
        sx = big(a.x(), a.x_prior(), [] if z is None else z, c['x0']) \
            if z is not None else big(a.x(), c['x0'])
        close(Ti.dot(b.x()), a.x(), kind + ' state in other coordinates', 1e-5, sx)
        close(Ti.dot(b.P()).dot(Ti.T), a.P(), kind + ' covariance in other coordinates', 1e-6, sp)
        close(Ti.dot(b.x_prior()), a.x_prior(), kind + ' prior in other coordinates', 1e-5, sx)
        close(Ti.dot(b.P_prior()).dot(Ti.T), a.P_prior(),
              kind + ' prior covariance in other coordinates', 1e-6, sp)
        if z is None:
            continue
        close(Ui.dot(np.ravel(b.f.y)), np.ravel(a.f.y), kind + ' innovation in other units', 1e-5, sx)
        S = np.asarray(a.f.S)
        close(Ui.dot(b.f.S).dot(Ui.T), S, kind + ' innovation covariance in other units', 1e-6,
              big(S))
        close(Ti.dot(b.f.K).dot(U), a.f.K, kind + ' gain in other coordinates', 1e-5, big(a.f.K))
        if hasattr(a.f, 'log_likelihood'):
            la, lb = a.f.log_likelihood, b.f.log_likelihood
            if min(la, lb) > -500:
                close(lb, la - np.linalg.slogdet(U)[1], kind + ' log-likelihood in other units', 1e-5,
                      big(la))
        if hasattr(a.f, 'mahalanobis'):
            close(b.f.mahalanobis, a.f.mahalanobis, kind + ' Mahalanobis distance in other units',
                  1e-5, big(a.f.mahalanobis))


# -- a shifted origin --------------------------------------------------------------------------
def gen_shift(g):
    c = gen_linear(g)
    c['B'], c['u_dim'] = np.eye(c['n']), c['n']
    c['hist'] = [[g.vec(c['n'], 4.), g.vec(c['m'], 20.)] for _ in range(g.int(1, 6))]
    c['shift'] = g.vec(c['n'], 20.)
    return c


def check_shift(c, ctx):
    """x' = x + s: the transition and the measurement become affine; the offset is a control"""
    kind, s = c['kind'], c['shift']
    d = dict(c, x0=np.asarray(c['x0']) + s)
    a, b = filters.A(kind, c), filters.A(kind, d)
    ctx.label(kind)
    ctx.nt(len(c['hist']) > 1)
    for u, z in c['hist']:
        a.predict(u)
        b.predict(np.asarray(u) + s - c['F'].dot(s))
        a.update(z)
        b.update(np.asarray(z) + c['H'].dot(s))
        sx = big(a.x(), s, c['x0'], z)
        close(b.x() - s, a.x(), kind + ' state with a shifted origin', 1e-5, sx)
        close(b.P(), a.P(), kind + ' covariance with a shifted origin', 1e-6, big(a.P()))
        close(b.f.K, a.f.K, kind + ' gain with a shifted origin', 1e-5, big(a.f.K))
        close(np.ravel(b.f.y), np.ravel(a.f.y), kind + ' innovation with a shifted origin', 1e-5, sx)


# -- an independent second problem -------------------------------------------------------------
def block(a, b):
    a, b = np.atleast_2d(a), np.atleast_2d(b)
    out = np.zeros((a.shape[0] + b.shape[0], a.shape[1] + b.shape[1]))
    out[:a.shape[0], :a.shape[1]] = a
    out[a.shape[0]:, a.shape[1]:] = b
    return out


def gen_embed(g):
    c = filters.model(g, 3, 2)
    e = filters.model(g, 3, 2)
    for q in (c, e):
        q['B'], q['u_dim'] = None, 0
    e['layout'] = c['layout']
    for k in ('ut_alpha', 'ut_beta', 'ut_kappa'):
        e[k] = c[k]
    c['alpha'] = e['alpha'] = g.choice([1., 1.1, 1.02])
    c['other'] = e
    c['kind'] = g.choice(list(filters.ALL))
    c['hist'] = [[g.vec(c['m'], 20.), g.vec(e['m'], 20.)] for _ in range(g.int(1, 6))]
    n = c['n'] + e['n']
    c['perm'] = g.perm(n)
    c['zperm'] = g.perm(c['m'] + e['m'])
    return c


def check_embed(c, ctx):
    e, kind = c['other'], c['kind']
    n, m = c['n'], c['m']
    j = dict(c, n=n + e['n'], m=m + e['m'], x0=np.concatenate([c['x0'], e['x0']]))
    for k in ('P0', 'F', 'Q', 'H', 'R'):
        j[k] = block(c[k], e[k])
    T, U = np.eye(j['n'])[c['perm']], np.eye(j['m'])[c['zperm']]
    a, b, f = filters.A(kind, c), filters.A(kind, e), filters.A(kind, rewrite(j, T, U))
    ctx.label(kind)
    ctx.nt(len(c['hist']) > 1 and (T != np.eye(j['n'])).any())
    for z, w in c['hist']:
        for q, v in ((a, z), (b, w), (f, U.dot(np.concatenate([z, w])))):
            q.predict()
            q.update(v)
        sx = big(a.x(), b.x(), z, w, a.x_prior(), b.x_prior())
        close(T.T.dot(f.x()), np.concatenate([a.x(), b.x()]), kind + ' state of a joint problem',
              1e-5, sx)
        P = block(a.P(), b.P())
        sp = big(a.P_prior(), b.P_prior())
        close(T.T.dot(f.P()).dot(T), P, kind + ' covariance of a joint problem', 1e-6, sp)
        close(T.T.dot(f.f.K).dot(U), block(a.f.K, b.f.K), kind + ' gain of a joint problem', 1e-5,
              big(a.f.K, b.f.K))
        if hasattr(a.f, 'log_likelihood'):
            la = a.f.log_likelihood + b.f.log_likelihood
            if min(a.f.log_likelihood, b.f.log_likelihood, f.f.log_likelihood) > -500:
                close(f.f.log_likelihood, la, kind + ' log-likelihood of a joint problem', 1e-5,
                      big(a.f.log_likelihood, b.f.log_likelihood))


# -- non-linear problems -----------------------------------------------------------------------
class NL(object):
    """x -> A x + b sin(C x),  z = D x + e cos(E x), optionally written in other coordinates"""

    def __init__(self, c, T, U):
        self.c, self.T, self.U = c, T, U
        self.Ti = np.linalg.inv(T)

    def f(self, x):
        c = self.c
        v = self.Ti.dot(np.ravel(x))
        return self.T.dot(c['F'].dot(v) + c['b'] * np.sin(c['C'].dot(v)))

    def fj(self, x):
        c = self.c
        v = self.Ti.dot(np.ravel(x))
        return self.T.dot(c['F'] + np.diag(c['b'] * np.cos(c['C'].dot(v))).dot(c['C'])).dot(self.Ti)

    def h(self, x):
        c = self.c
        v = self.Ti.dot(np.ravel(x))
        return self.U.dot(c['H'].dot(v) + c['e'] * np.cos(c['E'].dot(v)))

    def hj(self, x):
        c = self.c
        v = self.Ti.dot(np.ravel(x))
        return self.U.dot(c['H'] - np.diag(c['e'] * np.sin(c['E'].dot(v))).dot(c['E'])).dot(self.Ti)


def gen_nonlinear(g):
    c = filters.model(g, 3, 3)
    n, m = c['n'], c['m']
    c['b'], c['C'] = g.vec(n, 2.), g.mat(n, n)
    c['e'], c['E'] = g.vec(m, 2.), g.mat(m, n)
    c['ut_alpha'] = max(c['ut_alpha'], .5)
    c['kind'] = g.choice(['ekf', 'ekf', 'ukf_merwe', 'ukf_julier', 'ukf_simplex', 'ckf'])
    # the sigma point filters place their points with a Cholesky factor: the points, and not only
    # their mean and covariance, transform under a positive rescaling
    c['tk'], c['T'] = change(g, n, ('scale',) if c['kind'] != 'ekf' else
                             ('scale', 'perm', 'rot', 'mix'))
    c['uk'], c['U'] = change(g, m)
    c['zs'] = [g.vec(m, 5.) for _ in range(g.int(1, 5))]
    return c


def make(c, q, layout):
    n, m, kind = c['n'], c['m'], c['kind']
    T, U = q.T, q.U
    x = T.dot(c['x0'])
    sh = (lambda v: v.reshape(-1, 1)) if layout == 'col' else (lambda v: v)
    if kind == 'ekf':
        f = ExtendedKalmanFilter(n, m)
        f.x = sh(x)
    elif kind == 'ckf':
        f = CubatureKalmanFilter(n, m, 1., q.h, lambda v, dt: q.f(v))
        f.x = x
    else:
        pts = {'ukf_merwe': lambda: MerweScaledSigmaPoints(n, c['ut_alpha'], c['ut_beta'],
                                                          c['ut_kappa']),
               'ukf_julier': lambda: JulierSigmaPoints(n, c['ut_kappa']),
               'ukf_simplex': lambda: SimplexSigmaPoints(n)}[kind]()
        f = UnscentedKalmanFilter(n, m, 1., q.h, lambda v, dt: q.f(v), pts)
        f.x = x
    f.P, f.Q = T.dot(c['P0']).dot(T.T), T.dot(c['Q']).dot(T.T)
    f.R = U.dot(c['R']).dot(U.T)
    return f


def step(c, q, f, z, layout):
    sh = (lambda v: v.reshape(-1, 1)) if layout == 'col' else (lambda v: v)
    if c['kind'] == 'ekf':
        # the linearised transition with the rest of the motion as a control
        x = np.ravel(f.x)
        f.F, f.B = q.fj(x), np.eye(c['n'])
        f.predict(sh(q.f(x) - f.F.dot(x)))
        f.update(sh(z), q.hj, lambda v: sh(q.h(v)))
    else:
        f.predict()
        f.update(z)


def check_nonlinear(c, ctx):
    T, U = c['T'], c['U']
    Ti, Ui = np.linalg.inv(T), np.linalg.inv(U)
    p, q = NL(c, np.eye(c['n']), np.eye(c['m'])), NL(c, T, U)
    a, b = make(c, p, c['layout']), make(c, q, c['layout'])
    # a slightly disturbed copy tells how much this problem magnifies rounding errors
    d = make(c, p, c['layout'])
    d.x = np.asarray(d.x) * (1 + 1e-10) + 1e-10
    d.P = d.P * (1 + 1e-10)
    ctx.label(c['kind'], c['tk'])
    ctx.nt(len(c['zs']) > 1 and c['uk'] != 'scale')
    # the map itself is Lipschitz, but rounding grows with every step
    tol = 1e-4
    for z in c['zs']:
        try:
            step(c, p, a, z, c['layout'])
            step(c, p, d, z, c['layout'])
        except np.linalg.LinAlgError:
            return                       # a spread with negative weights lost definiteness
        if np.linalg.eigvalsh(a.P)[0] < 1e-4 * np.abs(a.P).max() or np.linalg.cond(a.S) > 1e6:
            return
        if max(np.abs(a.x - d.x).max(), np.abs(a.P - d.P).max(), np.abs(a.K - d.K).max()) > 1e-7 * \
                big(a.x, a.P):
            return
        step(c, q, b, U.dot(z), c['layout'])
        sx = big(np.ravel(a.x), z, c['x0'])
        close(Ti.dot(np.ravel(b.x)), np.ravel(a.x), c['kind'] + ' non-linear state', tol, sx)
        close(Ti.dot(b.P).dot(Ti.T), a.P, c['kind'] + ' non-linear covariance', tol, big(a.P_prior))
        close(Ti.dot(b.K).dot(U), a.K, c['kind'] + ' non-linear gain', tol, big(a.K))
        close(Ui.dot(np.ravel(b.y)), np.ravel(a.y), c['kind'] + ' non-linear innovation', tol, sx)
        if a.log_likelihood > -500:
            close(b.log_likelihood, a.log_likelihood - np.linalg.slogdet(U)[1],
                  c['kind'] + ' non-linear log-likelihood', tol, big(a.log_likelihood))


# -- smoothers and banks -----------------------------------------------------------------------
def gen_smooth(g):
    c = filters.model(g, 3, 2)
    c['B'], c['u_dim'] = None, 0
    c['tk'], c['T'] = change(g, c['n'])
    c['uk'], c['U'] = change(g, c['m'])
    c['zs'] = [g.vec(c['m'], 20.) for _ in range(g.int(2, 7))]
    c['lag'] = g.int(1, 4)
    return c


def check_smooth(c, ctx):
    T, U = c['T'], c['U']
    Ti = np.linalg.inv(T)
    d = rewrite(c, T, U)
    ctx.label(c['tk'])
    ctx.nt(c['tk'] != 'scale')
    res = []
    for q, W in ((c, np.eye(c['m'])), (d, U)):
        a = filters.A('kf', q).f
        zs = [lin.shape_x(W.dot(z), c['layout']) for z in c['zs']]
        m, P, _, _ = a.batch_filter(zs)
        xs, Ps, K, _ = a.rts_smoother(m, P)
        s = FixedLagSmoother(c['n'], c['m'], c['lag'])
        s.x = q['x0'].reshape(-1, 1).copy()
        s.F, s.H, s.P, s.Q, s.R = q['F'], q['H'], q['P0'].copy(), q['Q'], q['R']
        for z in c['zs']:
            s.smooth(W.dot(z).reshape(-1, 1))
        k = filters.A('ukf_merwe', q)
        um, uP = k.f.batch_filter([W.dot(z) for z in c['zs']])
        ux, uPs, _ = k.f.rts_smoother(um, uP)
        res.append((np.reshape(xs, (len(zs), -1)), Ps, K,
                    np.array([np.ravel(v) for v in s.xSmooth]), ux, uPs))
    (xs, Ps, K, fl, ux, uPs), (xs2, Ps2, K2, fl2, ux2, uPs2) = res
    sx, sp = big(xs, fl, *c['zs']), big(Ps, c['P0'])
    close(xs2.dot(Ti.T), xs, 'smoothed states in other coordinates', 1e-5, sx)
    close(Ti.dot(Ps2).transpose(1, 0, 2).dot(Ti.T), Ps, 'smoothed covariances in other coordinates',
          1e-5, sp)
    close(Ti.dot(K2).transpose(1, 0, 2).dot(T), K, 'smoother gains in other coordinates', 1e-5, big(K))
    close(fl2.dot(Ti.T), fl, 'fixed-lag states in other coordinates', 1e-5, sx)
    close(ux2.dot(Ti.T), ux, 'unscented smoothed states in other coordinates', 1e-4, sx)
    close(Ti.dot(uPs2).transpose(1, 0, 2).dot(Ti.T), uPs,
          'unscented smoothed covariances in other coordinates', 1e-4, sp)


def gen_bank(g):
    n, m = g.int(1, 3), g.int(1, 2)
    c = {'n': n, 'm': m, 'layout': 'col', 'models': []}
    for _ in range(g.int(2, 3)):
        q = filters.model(g, 3, 2)
        q.update(n=n, m=m, x0=g.vec(n), P0=g.spd(n), F=np.eye(n) + .3 * np.triu(g.mat(n, n), 1),
                 Q=g.spd(n, 1e-2, 10.), H=g.mat(m, n), R=g.spd(m, 1., 30.), B=None, u_dim=0,
                 layout='col')
        c['models'].append(q)
    k = len(c['models'])
    mu = np.array([g.float(.1, 1.) for _ in range(k)])
    c['mu'] = mu / mu.sum()
    M = np.array([[g.float(.1, 1.) for _ in range(k)] for _ in range(k)])
    c['M'] = M / M.sum(axis=1, keepdims=True)
    c['tk'], c['T'] = change(g, n)
    c['uk'], c['U'] = change(g, m)
    c['zs'] = [g.vec(m, 6.) for _ in range(g.int(1, 5))]
    return c


def check_bank(c, ctx):
    T, U = c['T'], c['U']
    Ti = np.linalg.inv(T)
    ctx.label(c['tk'])
    ctx.nt(len(c['zs']) > 1 and c['tk'] != 'scale')
    raw = [filters.A('kf', q).f for q in c['models']]
    new = [filters.A('kf', rewrite(q, T, U)).f for q in c['models']]
    banks = [(IMMEstimator(copy.deepcopy(raw), c['mu'].copy(), c['M'].copy()),
              IMMEstimator(copy.deepcopy(new), c['mu'].copy(), c['M'].copy())),
             (MMAEFilterBank(copy.deepcopy(raw), c['mu'].copy(), c['n'], H=None),
              MMAEFilterBank(copy.deepcopy(new), c['mu'].copy(), c['n'], H=None))]
    for a, b in banks:
        name = type(a).__name__
        for z in c['zs']:
            z = np.reshape(z, (-1, 1))
            a.predict(), b.predict()
            a.update(z), b.update(U.dot(z))
            if min(f.log_likelihood for f in list(a.filters) + list(b.filters)) < -300:
                break
            pa = np.ravel(a.mu if hasattr(a, 'mu') else a.p)
            pb = np.ravel(b.mu if hasattr(b, 'mu') else b.p)
            close(pb, pa, name + ' probabilities in other coordinates', 1e-6, 1.)
            sx = big(a.x, z, *[f.x for f in a.filters])
            close(Ti.dot(np.ravel(b.x)), np.ravel(a.x), name + ' state in other coordinates', 1e-5, sx)
            close(Ti.dot(b.P).dot(Ti.T), a.P, name + ' covariance in other coordinates', 1e-5,
                  max(big(a.P), sx ** 2 * 1e-2))


# -- very large and very small units -----------------------------------------------------------
def gen_extreme(g):
    c = filters.model(g, 3, 3)
    c['alpha'] = g.choice([1., 1.1, 1.02])
    c['kind'] = g.choice(list(filters.ALL) + ['batch', 'func', 'fls', 'bank', 'enkf'])
    c['hist'] = filters.history(g, c, 1, 8, 1)
    c['a'], c['b'] = g.int(-30, 30), g.int(-30, 30)
    mixed = g.bool() and c['kind'] != 'enkf'     # the random draws depend on the directions
    c['da'] = [g.int(-12, 12) if mixed else 0 for _ in range(c['n'])]
    c['db'] = [g.int(-12, 12) if mixed else 0 for _ in range(c['m'])]
    c['seed'] = g.int(0, 99999)
    c['other'] = {'Q': g.spd(c['n'], 1e-3, 10.), 'R': g.spd(c['m'], 1., 30.)}
    return c


def run_extreme(c, hist, U):
    """everything the problem yields, as (name, array, the units of its rows and columns)"""
    kind, out = c['kind'], []
    n, m = c['n'], c['m']
    if kind in filters.ALL:
        f = filters.A(kind, c)
        for u, z in hist:
            f.predict(u)
            f.update(None if z is None else U * z)
            out += [('prior state', f.x_prior(), 'x'), ('state', f.x(), 'x'),
                    ('prior covariance', f.P_prior(), 'xx'), ('covariance', f.P(), 'xx')]
            if z is not None:
                out += [('innovation', np.ravel(f.f.y), 'z'), ('gain', np.array(f.f.K), 'x/z'),
                        ('innovation covariance', np.array(f.f.S), 'zz')]
                if hasattr(f.f, 'mahalanobis'):
                    out.append(('Mahalanobis distance', np.array(f.f.mahalanobis), ''))
                if hasattr(f.f, 'log_likelihood') and f.f.log_likelihood > -450:
                    out.append(('log-likelihood', np.array(f.f.log_likelihood + np.log(U).sum()), ''))
        return out
    if kind == 'enkf':
        state = np.random.get_state()
        try:
            np.random.seed(c['seed'])
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f = EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), m, 1., 7, c['H'].dot,
                                         lambda x, dt: c['F'].dot(x))
                f.Q, f.R = c['Q'], c['R']
                for _, z in hist:
                    f.predict()
                    out += [('prior mean', f.x, 'x'), ('prior covariance', f.P, 'xx')]
                    f.update(None if z is None else U * z)
                    out += [('mean', f.x, 'x'), ('covariance', f.P, 'xx')]
                    if z is not None:
                        out += [('gain', f.K, 'x/z'), ('innovation covariance', f.S, 'zz')]
                    out.append(('ensemble', np.array(f.sigmas).T, 'x*'))
        finally:
            np.random.set_state(state)
        return out
    z = [U * z for _, z in hist if z is not None]
    col = [v.reshape(-1, 1) for v in z]
    if kind == 'batch':
        f = filters.A('kf', dict(c, layout='col')).f
        mu, P, mp, Pp = f.batch_filter(col)
        out += [('means', mu, 'x'), ('covariances', P, 'xx'), ('prior means', mp, 'x'),
                ('prior covariances', Pp, 'xx')]
        x, P, K, _ = f.rts_smoother(mu, P)
        out += [('smoothed means', x, 'x'), ('smoothed covariances', P, 'xx'),
                ('smoother gains', K, 'x/x')]
        f = filters.A('ukf_merwe', c).f
        x, P = f.batch_filter(z)
        out += [('unscented means', x, 'x'), ('unscented covariances', P, 'xx')]
        x, P, _ = f.rts_smoother(x, P)
        out += [('smoothed unscented means', x, 'x'), ('smoothed unscented covariances', P, 'xx')]
    elif kind == 'func':
        x, P = c['x0'].reshape(-1, 1).copy(), c['P0'].copy()
        for v in col:
            x, P = kalman.predict(x, P, c['F'], c['Q'], alpha=c['alpha'])
            out += [('predicted state', x, 'x'), ('predicted covariance', P, 'xx')]
            x, P, y, K, S, ll = kalman.update(x, P, v, c['R'], c['H'], return_all=True)
            out += [('updated state', x, 'x'), ('updated covariance', P, 'xx'), ('residual', y, 'z'),
                    ('gain', K, 'x/z'), ('innovation covariance', S, 'zz')]
            if ll > -450:
                out.append(('log-likelihood', np.array(ll + np.log(U).sum()), ''))
    elif kind == 'fls':
        for how in ('smooth', 'batch'):
            s = FixedLagSmoother(n, m, 2)
            s.x, s.F, s.H = c['x0'].reshape(-1, 1).copy(), c['F'], c['H']
            s.P, s.Q, s.R = c['P0'].copy(), c['Q'], c['R']
            if how == 'batch':
                a, b = s.smooth_batch(col, 2)
                out += [('smoothed', np.array(a), 'x'), ('filtered', np.array(b), 'x')]
            else:
                for v in col:
                    s.smooth(v)
                out.append(('smoothed', np.array([np.ravel(v) for v in s.xSmooth]), 'x'))
    else:
        for cls in (IMMEstimator, MMAEFilterBank):
            fs = [filters.A('kf', dict(c, layout='col', B=None)).f,
                  filters.A('kf', dict(c, layout='col', B=None, Q=c['other']['Q'],
                                       R=c['other']['R'])).f]
            if cls is IMMEstimator:
                k = cls(fs, [.4, .6], np.array([[.9, .1], [.3, .7]]))
            else:
                k = cls(fs, [.4, .6], n, H=None)
            for v in col:
                k.predict()
                k.update(v)
                if min(f.log_likelihood + np.log(U).sum() for f in fs) < -150:
                    break
                out += [(cls.__name__ + ' state', np.array(k.x), 'x'),
                        (cls.__name__ + ' covariance', np.array(k.P), 'xx'),
                        (cls.__name__ + ' probabilities', np.array(k.mu if hasattr(k, 'mu') else k.p),
                         '')]
    return out


def check_extreme(c, ctx):
    """powers of two as units: hardly any rounding changes, so any absolute threshold or constant in
    the code shows"""
    kind = c['kind']
    a = 2. ** (c['a'] + np.array(c['da']))
    b = 2. ** (c['b'] + np.array(c['db']))
    n, m = c['n'], c['m']
    if kind in ('batch', 'fls', 'func', 'bank') and not any(z is not None for _, z in c['hist']):
        return
    T, U = np.diag(a), np.diag(b)
    d = rewrite(c, T, U)
    d['other'] = {'Q': T.dot(c['other']['Q']).dot(T), 'R': U.dot(c['other']['R']).dot(U)}
    p, q = run_extreme(c, c['hist'], np.ones(m)), run_extreme(d, c['hist'], b)
    mixed = any(c['da'] + c['db'])
    ctx.label(kind, 'mixed units' if mixed else 'uniform units')
    ctx.nt(mixed or abs(c['a']) > 8 or abs(c['b']) > 8)
    hi = {}
    for name, v, u in p:
        hi[u] = max(hi.get(u, 0.), float(np.abs(v).max()))
    require(len(p) == len(q) or kind in filters.ALL or kind in ('func', 'bank'),
            '%s: a different number of results in other units', kind)
    if len(p) != len(q):
        return                       # a likelihood at the edge of what is compared
    o = {'x': a, 'z': b}
    for (name, v, u), (_, w, _) in zip(p, q):
        w, v = np.asarray(w, dtype=float), np.asarray(v, dtype=float)
        if u == 'x*':
            w = w / o['x'][:, None]
        elif len(u) == 1:
            if w.ndim > 1 and w.shape[-1] == 1 and w.shape[-2] == len(o[u]):
                w, v = w[..., 0], v[..., 0]
            w = w / o[u]
        elif u:
            w = w / o[u[0]][:, None] * o[u[2]] if u[1] == '/' else w / o[u[0]][:, None] / o[u[1]]
        close(w, v, '%s: %s in units of 2^%s and 2^%s' % (kind, name, np.log2(a), np.log2(b)),
              1e-6 if mixed else 1e-8, hi[u] if u else 1.)


# -- scalar filters ----------------------------------------------------------------------------
def gen_scalar(g):
    return {'zs': [g.float(-50, 50) for _ in range(g.int(1, 10))], 's': g.logfloat(*g.choice([(1e-3, 1e3), (1e-9, 1e9)])) *
            g.choice([1., -1.]), 'off': g.float(-100, 100), 'dt': g.logfloat(.05, 10.),
            'g': g.float(.05, .95), 'h': g.float(.05, .9), 'k': g.float(.01, .5),
            'x0': [g.float(-9, 9) for _ in range(3)], 'order': g.int(0, 2), 'beta': g.float(.1, .95),
            'tau': g.logfloat(*g.choice([(.1, 10.), (1e-6, 1e6)]))}


def check_scalar(c, ctx):
    """units of the measured quantity, its origin, and the unit of time"""
    s, dt, zs, x0, tau = c['s'], c['dt'], c['zs'], c['x0'], c['tau']
    ctx.label('order %d' % c['order'])
    ctx.nt(len(zs) > 1)
    big_ = max(map(abs, zs + x0))

    def run(scale, off, tau):
        r = scale
        gh = GHFilter(r * x0[0] + off, r * x0[1] / tau, dt * tau, c['g'], c['h'])
        gk = GHKFilter(r * x0[0] + off, r * x0[1] / tau, r * x0[2] / tau ** 2, dt * tau, c['g'], c['h'],
                       c['k'])
        fm = FadingMemoryFilter([r * x0[0] + off, r * x0[1] / tau, r * x0[2] / tau ** 2][:c['order'] + 1],
                                dt * tau, c['order'], c['beta'])
        ls = LeastSquaresFilter(dt * tau, c['order'])
        out = []
        for i, z in enumerate(zs):
            z = r * z + off
            gh.update(z), gk.update(z), fm.update(z), ls.update(z)
            fx = np.array(fm.x, dtype=float).ravel()
            lx = np.array(ls.x, dtype=float).ravel()
            row = [(gh.x - off) / r, gh.dx * tau / r, (gk.x - off) / r, gk.dx * tau / r,
                   gk.ddx * tau ** 2 / r, (fx[0] - off) / r] + \
                  [fx[j] * tau ** j / r for j in range(1, c['order'] + 1)]
            if i >= c['order']:
                row += [(lx[0] - off) / r] + [lx[j] * tau ** j / r for j in range(1, c['order'] + 1)]
            out.append(row)
        return out

    base = run(1., 0., 1.)
    for name, args in (('unit', (s, 0., 1.)), ('origin', (1., c['off'], 1.)),
                       ('unit of time', (1., 0., c['tau']))):
        for i, (p, q) in enumerate(zip(base, run(*args))):
            close(q, p, 'scalar filters after %d measurements with another %s' % (i + 1, name), 1e-6,
                  max(1e-3, big_, np.abs(p).max(), abs(c['off']) if name == 'origin' else 0.))


SUBS = [Sub('linear', gen_linear, check_linear, 700),
        Sub('extreme', gen_extreme, check_extreme, 900),
        Sub('shift', gen_shift, check_shift, 300),
        Sub('embed', gen_embed, check_embed, 400),
        Sub('nonlinear', gen_nonlinear, check_nonlinear, 400),
        Sub('smooth', gen_smooth, check_smooth, 120),
        Sub('bank', gen_bank, check_bank, 150),
        Sub('scalar', gen_scalar, check_scalar, 300)]
