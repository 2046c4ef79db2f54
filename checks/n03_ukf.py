"""Unscented Kalman filter: every step equals its textbook definition, nonlinear models included."""
import numpy as np
from filterpy.kalman import (UnscentedKalmanFilter, MerweScaledSigmaPoints, JulierSigmaPoints,
                             SimplexSigmaPoints)
from vlib import lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'N03'
RULE = ('Random nonlinear process and measurement functions with extra arguments, sigma schemes '
        '(including a user-written one), angle-aware mean, residual and addition functions, '
        'per-call time steps, noise, functions and transforms; each step is recomputed from the '
        'filter\'s own estimate before it; non-trivial: at least one update of a nonlinear model.')


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


class Spread(object):
    """a user-written point scheme: symmetric points along the eigenvectors, own weights"""

    def __init__(self, n, w0=.3):
        self.n = n
        self.c = n / (1. - w0)
        self.Wm = np.full(2 * n + 1, (1. - w0) / (2 * n))
        self.Wm[0] = w0
        self.Wc = self.Wm.copy()
        self.Wc[0] += .25

    def num_sigmas(self):
        return 2 * self.n + 1

    def sigma_points(self, x, P):
        w, v = np.linalg.eigh(P)
        L = v * np.sqrt(np.maximum(w, 0.) * self.c)
        return np.vstack([x, x + L.T, x - L.T])


def points(c, **kw):
    n, s = c['n'], c['scheme']
    if s == 'merwe':
        return MerweScaledSigmaPoints(n, c['alpha'], c['beta'], c['kappa'], **kw)
    if s == 'julier':
        return JulierSigmaPoints(n, c['kappa'], **kw)
    return SimplexSigmaPoints(n, **kw) if s == 'simplex' else Spread(n)


def own_points(c, x, P):
    """points and weights from the published formulas"""
    n, s = c['n'], c['scheme']
    if s in ('user', 'simplex'):
        p = points(c)
        return p.sigma_points(x, P), np.array(p.Wm), np.array(p.Wc)
    lam = c['alpha'] ** 2 * (n + c['kappa']) - n if s == 'merwe' else c['kappa']
    L = np.linalg.cholesky((n + lam) * P).T
    W = np.full(2 * n + 1, .5 / (n + lam))
    W[0] = lam / (n + lam)
    Wc = W.copy()
    if s == 'merwe':
        Wc[0] += 1 - c['alpha'] ** 2 + c['beta']
    return np.vstack([x, x + L, x - L]), W, Wc


def gen(g):
    n, m = g.dim(1, 4, 7), g.dim(1, 3, 5)
    c = {'n': n, 'm': m, 'scheme': g.choice(['merwe', 'julier', 'simplex', 'user']),
         'alpha': g.choice([.5, 1., .2, .8]), 'beta': g.choice([2., 0., 1.]),
         'kappa': g.choice([0., 1., .5, 2.]),
         'x0': g.vec(n, 4.), 'P0': g.spd(n, 1e-2, 4.), 'Q': g.spd(n, 1e-2, 2.),
         'R': g.spd(m, 1e-2, 10.), 'F': g.trans(n), 'H': g.mat(m, n), 'dt': g.choice([1., .1, .5]),
         'm2': g.choice([m, g.dim(1, 3, 5)]), 's': g.choice([0., .5, 1., 2.]), 'angle_x': g.prob(4), 'angle_z': g.prob(4),
         'uneven': g.prob(3), 'ops': []}
    c['H2'] = c['H'] if c['m2'] == m else g.mat(c['m2'], n)     # another sensor
    for _ in range(g.int(1, 6)):
        o = {'dt': g.choice([None, None, .3, 2., 0.]), 'fxa': g.choice([None, None, .5, -2.]),
             'fx2': g.prob(2), 'UTp': g.prob(2), 'posdt': g.bool(),
             'z': None if g.prob(1) else g.vec(m, 6.), 'zform': g.choice(['array', 'array', 'list',
                                                                        'scalar']),
             'R': [None, g.spd(m, 1e-2, 10.), g.logfloat(1e-2, 10.), 0.][g.choice([0, 0, 0, 1, 1, 2, 2, 3])],
             'hxa': g.choice([None, None, .5, -2.]), 'hx2': g.prob(2), 'UTu': g.prob(2),
             'set': g.choice([None, None, 'x', 'P', 'Q', 'R'])}
        if o['hx2'] and c['m2'] != m:
            o['R'] = [g.spd(c['m2'], 1e-2, 10.), g.logfloat(1e-2, 10.), 0.][g.choice([0, 0, 1, 1, 2])]
            o['z'] = None if o['z'] is None else g.vec(c['m2'], 6.)
            o['zform'] = g.choice(['array', 'list'])
        if o['set']:
            o['v'] = {'x': lambda: g.vec(n, 4.), 'P': lambda: g.spd(n, 1e-2, 4.),
                      'Q': lambda: g.spd(n, 1e-2, 2.), 'R': lambda: g.spd(m, 1e-2, 10.)}[o['set']]()
        c['ops'].append(o)
    return c


class Model(object):
    def __init__(self, c):
        self.c = c
        self.n_ut = 0
        self.inc = .75 if c['uneven'] else 1.    # the order of the arguments matters

    def fx(self, x, dt, bias=0.):
        return self.c['F'].dot(x) + dt * self.c['s'] * np.sin(x + bias) + bias

    def fx2(self, x, dt, bias=0.):
        return x + dt * np.cos(x) - bias

    def hx(self, x, gain=1.):
        return self.c['H'].dot(x) * gain + self.c['s'] * np.cos(self.c['H'].dot(x))

    def hx2(self, x, gain=1.):
        return gain * self.c['H2'].dot(x) + .5 * self.c['H2'].dot(x * np.abs(x)) / 4.

    def add(self, a, b):
        y = np.asarray(a) + self.inc * np.asarray(b)
        y[0] = wrap(y[0])
        return y

    def res(self, a, b):
        d = np.asarray(a, dtype=float) - b
        d[0] = wrap(d[0])
        return d

    def resz(self, a, b):
        """not antisymmetric when uneven: the order of the arguments matters"""
        return self.res((1.1 if self.c['uneven'] else 1.) * np.asarray(a, dtype=float), b)

    def mean(self, s, w):
        m = w.dot(s)
        m[0] = np.arctan2(w.dot(np.sin(s[:, 0])), w.dot(np.cos(s[:, 0])))
        return m

    def UT(self, sigmas, Wm, Wc, noise_cov=None, mean_fn=None, residual_fn=None):
        """a user transform: the usual one with the covariance inflated"""
        self.n_ut += 1
        x = Wm.dot(sigmas) if mean_fn is None else mean_fn(sigmas, Wm)
        y = np.array([(residual_fn or np.subtract)(s, x) for s in sigmas])
        return x, 1.5 * (y.T * Wc).dot(y) + noise_cov


def moments(s, Wm, Wc, noise, angle, M, inflate, res=None):
    """weighted mean and covariance; None when the circular mean is undetermined"""
    if angle:
        sn, cs = Wm.dot(np.sin(s[:, 0])), Wm.dot(np.cos(s[:, 0]))
        if np.hypot(sn, cs) < 1e-2:
            return None
        x = M.mean(s, Wm)
        y = np.array([(res or M.res)(v, x) for v in s])
        if np.any(np.abs(np.abs(y[:, 0]) - np.pi) < 1e-6):
            return None
    else:
        x = np.array([float(np.dot(Wm, s[:, i])) for i in range(s.shape[1])])
        y = s - x
    P = np.zeros((s.shape[1],) * 2)
    for w, v in zip(Wc, y):
        P += w * np.outer(v, v)
    return x, (1.5 if inflate else 1.) * P + noise, y


def regular(P):
    w = np.linalg.eigvalsh(ref.sym(P))
    return np.all(np.isfinite(w)) and w[0] > 1e-4 * max(1e-3, w[-1])


def check(c, ctx):
    n, m = c['n'], c['m']
    M = Model(c)
    kw = {}
    if c['angle_x']:
        kw.update(x_mean_fn=M.mean, residual_x=M.res, state_add=M.add)
    if c['angle_z']:
        kw.update(z_mean_fn=M.mean, residual_z=M.resz)
    pts = points(c, subtract=M.res) if c['angle_x'] and c['scheme'] in ('merwe', 'julier') \
        else points(c)
    f = UnscentedKalmanFilter(n, m, c['dt'], M.hx, M.fx, pts, **kw)
    f.x, f.P, f.Q, f.R = c['x0'].copy(), c['P0'].copy(), c['Q'].copy(), c['R'].copy()
    done = False
    for o in c['ops']:
        if o['set'] in ('x', 'P', 'Q', 'R'):
            setattr(f, o['set'], o['v'].copy())
        x, P = np.array(f.x), np.array(f.P)
        if not regular(P):
            ctx.label('ended: covariance nearly singular')
            break
        # ---- prediction
        dt = c['dt'] if o['dt'] is None else o['dt']
        fxa = {} if o['fxa'] is None else {'bias': o['fxa']}
        p, Wm, Wc = own_points(c, x, P)
        if c['angle_x'] and c['scheme'] in ('merwe', 'julier') and \
                np.any(np.abs(np.abs(p[:, 0]) - np.pi) < 1e-6):
            break
        if c['angle_x'] and c['scheme'] in ('merwe', 'julier'):
            # points are drawn with the angle-aware subtraction
            p[1:, 0] = wrap(p[1:, 0])
        fx = M.fx2 if o['fx2'] else M.fx
        sf = np.array([fx(v, dt, **fxa) for v in p])
        r = moments(sf, Wm, Wc, f.Q, c['angle_x'], M, o['UTp'])
        if r is None or not regular(r[1]):
            ctx.label('ended: prediction not positive definite')
            break
        px, pP, _ = r
        ws = np.abs(Wc).sum()
        tol = 1e-9 * max(1., ws)
        ss = max(1., np.abs(sf).max())
        k = dict(fxa)
        if o['fx2']:
            k['fx'] = M.fx2
        if o['UTp']:
            k['UT'] = M.UT
        before = M.n_ut
        if o['posdt'] and o['dt'] is not None:
            f.predict(o['dt'], **k)
        elif o['dt'] is not None:
            f.predict(dt=o['dt'], **k)
        else:
            f.predict(**k)
        require(not o['UTp'] or M.n_ut > before, 'the given transform was not used')
        close(f.x, px, 'state after the prediction', tol, ss)
        close(f.P, pP, 'covariance after the prediction', tol, ss ** 2)
        close(f.x_prior, px, 'recorded prior', tol, ss)
        close(f.P_prior, pP, 'recorded prior covariance', tol, ss ** 2)
        # ---- update, from the filter's own prior
        x, P = np.array(f.x), np.array(f.P)
        if o['z'] is None:
            f.update(None)
            same(f.x, x, 'state after a missing measurement')
            continue
        mz = c['m2'] if o['hx2'] else m
        R = f.R if o['R'] is None else lin.full(o['R'], mz)
        hxa = {} if o['hxa'] is None else {'gain': o['hxa']}
        hx = M.hx2 if o['hx2'] else M.hx
        p, Wm, Wc = own_points(c, x, P)
        if c['angle_x'] and c['scheme'] in ('merwe', 'julier'):
            if np.any(np.abs(np.abs(p[:, 0]) - np.pi) < 1e-6):
                break
            p[1:, 0] = wrap(p[1:, 0])
        sh = np.array([hx(v, **hxa) for v in p])
        r = moments(sh, Wm, Wc, R, c['angle_z'], M, o['UTu'], M.resz)
        if r is None or not regular(r[1]):
            ctx.label('ended: innovation covariance not positive definite')
            break
        zp, S, dz = r
        dx = np.array([M.res(v, x) for v in p]) if c['angle_x'] else p - x
        if c['angle_x'] and np.any(np.abs(np.abs(dx[:, 0]) - np.pi) < 1e-6):
            break
        C = np.zeros((n, mz))
        for w, a, b in zip(Wc, dx, dz):
            C += w * np.outer(a, b)
        K = np.linalg.solve(S, C.T).T
        y = M.resz(o['z'], zp) if c['angle_z'] else o['z'] - zp
        if c['angle_z'] and abs(abs(y[0]) - np.pi) < 1e-6:
            break
        ex = x + (M.inc if c['angle_x'] else 1.) * K.dot(y)
        if c['angle_x']:
            if abs(abs(wrap(ex[0])) - np.pi) < 1e-6:
                break
            ex[0] = wrap(ex[0])
        eP = P - K.dot(S).dot(K.T)
        z = o['z'].copy()
        if not c['angle_z'] and o['zform'] == 'list':
            z = [float(v) for v in z]
        elif not c['angle_z'] and o['zform'] == 'scalar' and m == 1:
            z = float(z[0])
        k = dict(hxa)
        if o['R'] is not None:
            k['R'] = o['R']
        if o['hx2']:
            k['hx'] = M.hx2
        if o['UTu']:
            k['UT'] = M.UT
        f.update(z, **k)
        cond = np.linalg.cond(S)
        hs = max(1., np.abs(sh).max())
        tol = 1e-9 * max(1., ws) * max(1., cond)
        close(f.S, S, 'innovation covariance', tol, hs ** 2)
        close(f.y, y, 'residual', tol, hs, flat=True)
        close(f.K, K, 'gain', tol, ss * hs / np.linalg.eigvalsh(ref.sym(S))[0])
        kmax = max(1., np.abs(K).max())
        close(f.x, ex, 'state after the update', tol * 10, max(ss, kmax * hs))
        close(f.P, eP, 'covariance after the update', tol * 10, max(ss, kmax * hs) ** 2)
        close(f.x_post, ex, 'recorded posterior', tol * 10, max(ss, kmax * hs))
        close(f.P_post, eP, 'recorded posterior covariance', tol * 10, max(ss, kmax * hs) ** 2)
        close(np.array(f.z, dtype=float), o['z'], 'recorded measurement', 1e-12, flat=True)
        if cond < 1e6:
            ll = ref.gauss_logpdf(y, S)
            require(abs(f.log_likelihood - ll) <= 1e-6 * (10 + abs(ll)),
                    'log-likelihood %r, expected %r', f.log_likelihood, ll)
        done = done or c['s'] > 0 or o['hx2']
        ctx.label('update', 'UT' if o['UTu'] else '', 'R' if o['R'] is not None else '',
                  'hx' if o['hx2'] else '', 'other size' if mz != m else '')
    ctx.label(c['scheme'], 'angle x' if c['angle_x'] else '', 'angle z' if c['angle_z'] else '')
    ctx.nt(done)


# ------------------------------------------------------------------ smoother, nonlinear
def gen_rts(g):
    c = gen(g)
    c['ops'] = []
    n = c['n']
    c['N'] = g.int(1, 6)
    c['xs'] = g.floats(c['N'] * n, 4.).reshape(c['N'], n)
    c['Ps'] = np.array([g.spd(n, 1e-1, 4.) for _ in range(c['N'])])
    c['Qs'] = [None, [g.spd(n, 1e-2, 2.) for _ in range(c['N'])]][g.choice([0, 1])]
    c['dts'] = [None, .4, [g.choice([1., .2, .5, 0.]) for _ in range(c['N'])], 0.][g.choice([0, 1, 2, 2, 3])]
    c['UT'] = g.prob(2)
    return c


def check_rts(c, ctx):
    M = Model(c)
    kw = {'x_mean_fn': M.mean, 'residual_x': M.res} if c['angle_x'] else {}
    f = UnscentedKalmanFilter(c['n'], c['m'], c['dt'], M.hx, M.fx, points(c), **kw)
    f.Q = c['Q'].copy()
    N = c['N']
    x, P = c['xs'].copy(), c['Ps'].copy()
    Ks = np.zeros((N, c['n'], c['n']))
    scale = 1.
    for k in range(N - 2, -1, -1):
        dt = c['dt'] if c['dts'] is None else c['dts'] if np.isscalar(c['dts']) else c['dts'][k + 1]
        Q = c['Q'] if c['Qs'] is None else c['Qs'][k + 1]
        p, Wm, Wc = own_points(c, c['xs'][k], c['Ps'][k])
        sf = np.array([M.fx(v, dt) for v in p])
        r = moments(sf, Wm, Wc, Q, c['angle_x'], M, c['UT'])
        if r is None or not regular(r[1]):
            ctx.label('ended: prediction not positive definite')
            return
        xb, Pb, dy = r
        dx = np.array([M.res(v, c['xs'][k]) for v in p]) if c['angle_x'] else p - c['xs'][k]
        if c['angle_x'] and np.any(np.abs(np.abs(dx[:, 0]) - np.pi) < 1e-6):
            return
        C = (dx.T * Wc).dot(dy)
        K = np.linalg.solve(Pb.T, C.T).T
        d = M.res(x[k + 1], xb) if c['angle_x'] else x[k + 1] - xb
        if c['angle_x'] and abs(abs(d[0]) - np.pi) < 1e-5:
            return
        x[k] = c['xs'][k] + K.dot(d)
        P[k] = c['Ps'][k] + K.dot(P[k + 1] - Pb).dot(K.T)
        Ks[k] = K
        scale = max(scale, np.abs(sf).max(), np.abs(x).max(), np.abs(K).max())
    if scale > 1e4:
        return
    kw = {}
    if c['Qs'] is not None:
        kw['Qs'] = c['Qs']
    if c['dts'] is not None:
        kw['dts'] = c['dts']
    if c['UT']:
        kw['UT'] = M.UT
    gx, gP, gK = f.rts_smoother(c['xs'].copy(), c['Ps'].copy(), **kw)
    close(gx, x, 'smoothed means', 1e-6, scale ** 2)
    close(gP, P, 'smoothed covariances', 1e-6, scale ** 2)
    close(gK, Ks, 'smoother gains', 1e-6, scale)
    ctx.label(c['scheme'], 'angle x' if c['angle_x'] else '')
    ctx.nt(N > 1 and c['s'] > 0)


SUBS = [Sub('histories', gen, check, 2500), Sub('smoother', gen_rts, check_rts, 800)]
