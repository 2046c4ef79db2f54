"""One face for every filter class that can run a linear Gaussian model.

A model dict `c` has n, m, x0 (n,), P0, F, Q, H, R, B (or None) and layout '1d'|'col'.
Adapters expose predict(u), update(z) with flat arrays, and x()/P() as plain arrays.
"""
import warnings
import numpy as np
from filterpy.kalman import (KalmanFilter, SquareRootKalmanFilter, InformationFilter,
                             ExtendedKalmanFilter, FadingKalmanFilter, UnscentedKalmanFilter,
                             CubatureKalmanFilter, EnsembleKalmanFilter, MerweScaledSigmaPoints,
                             JulierSigmaPoints, SimplexSigmaPoints, FixedLagSmoother,
                             IMMEstimator, MMAEFilterBank)
from filterpy import gh, memory, leastsq
from filterpy.hinfinity import HInfinityFilter
from vlib import lin

COLUMN = ('kf', 'srkf', 'if', 'ekf', 'fkf')
SIGMA = ('ukf_merwe', 'ukf_julier', 'ukf_simplex', 'ckf')
ALL = COLUMN + SIGMA
OTHER = ('imm', 'mmae', 'enkf', 'hinf', 'fls', 'gh', 'ghk', 'order', 'memory', 'lsq')


class A(object):
    def __init__(self, kind, c):
        self.kind, self.c = kind, c
        n, m = c['n'], c['m']
        self.n, self.m = n, m
        self.u = None
        # arrays handed over to the filter; kept to check that nobody writes to them
        self.given = {'x': lin.shape_x(c['x0'], c['layout'] if kind in COLUMN else '1d'),
                      'P': c['P0'].copy(), 'F': c['F'].copy(), 'Q': c['Q'].copy(),
                      'H': c['H'].copy(), 'R': c['R'].copy()}
        if c['B'] is not None:
            self.given['B'] = c['B'].copy()
        v = self.given
        F, H = v['F'], v['H']
        du = 0 if c['B'] is None else c['B'].shape[1]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind == 'kf':
                f = KalmanFilter(n, m, du)
            elif kind == 'srkf':
                f = SquareRootKalmanFilter(n, m, du)
            elif kind == 'if':
                f = InformationFilter(n, m, du)
            elif kind == 'ekf':
                f = ExtendedKalmanFilter(n, m, du)
            elif kind == 'fkf':
                f = FadingKalmanFilter(c.get('alpha', 1.0), n, m, du)
            elif kind == 'ckf':
                f = CubatureKalmanFilter(n, m, 1.0, self.hx, self.fx)
            else:
                pts = {'ukf_merwe': lambda: MerweScaledSigmaPoints(n, c.get('ut_alpha', .5),
                                                                  c.get('ut_beta', 2.),
                                                                  c.get('ut_kappa', 1.)),
                       'ukf_julier': lambda: JulierSigmaPoints(n, c.get('ut_kappa', 1.)),
                       'ukf_simplex': lambda: SimplexSigmaPoints(n)}[kind]()
                f = UnscentedKalmanFilter(n, m, 1.0, self.hx, self.fx, pts)
        self.f = f
        f.x = v['x']
        if kind == 'if':
            v['P_inv'] = np.linalg.inv(v['P'])
            v['R_inv'] = np.linalg.inv(v['R'])
            f.P_inv, f.R_inv = v['P_inv'], v['R_inv']
        else:
            f.P, f.R = v['P'], v['R']
        f.Q = v['Q']
        if kind in COLUMN:
            f.F = F
            if kind != 'ekf':
                f.H = H
            if c['B'] is not None:
                f.B = v['B']

    # user callbacks
    def fx(self, x, dt):
        y = self.given['F'].dot(x)
        if self.u is not None:
            y = y + self.given['B'].dot(self.u)
        return y

    def hx(self, x):
        return self.given['H'].dot(x)

    def jac(self, x):
        return self.given['H']

    def predict(self, u=None):
        if self.kind in COLUMN:
            if u is None:
                self.f.predict()
            else:
                self.f.predict(u=lin.shape_x(u, self.c['layout']))
        else:
            self.u = None if u is None else np.asarray(u, dtype=float)
            self.f.predict()
            self.u = None

    def zarg(self, z):
        if z is None:
            return None
        return lin.shape_x(z, self.c['layout'] if self.kind in COLUMN else '1d')

    def update(self, z, zraw=None):
        z = self.zarg(z) if zraw is None else zraw
        if self.kind == 'ekf':
            self.f.update(z, self.jac, self.hx)
        else:
            self.f.update(z)

    def x(self):
        return np.array(self.f.x, dtype=float).ravel()

    def P(self):
        return np.array(self.f.P, dtype=float)

    def x_prior(self):
        return np.array(self.f.x_prior, dtype=float).ravel()

    def x_post(self):
        return np.array(self.f.x_post, dtype=float).ravel()

    def P_prior(self):
        if self.kind == 'if':
            return np.linalg.inv(self.f.P_inv_prior)
        return np.array(self.f.P_prior, dtype=float)

    def P_post(self):
        if self.kind == 'if':
            return np.linalg.inv(self.f.P_inv_post)
        return np.array(self.f.P_post, dtype=float)


class W(object):
    """an estimator other than the linear-capable filters, with one predict/update face"""

    def __init__(self, who, c):
        self.c, self.who = c, who
        n, m = c['n'], c['m']
        if who in ('imm', 'mmae'):
            fs = []
            for i in range(2):
                d = dict(c)
                d['Q'] = c['Q'] * (i + 1.)
                fs.append(A('kf', d).f)
            M = np.array([[.9, .1], [.3, .7]])
            self.f = IMMEstimator(fs, np.array([.4, .6]), M) if who == 'imm' else \
                MMAEFilterBank(fs, np.array([.4, .6]), n, H=c['H'].copy())
        elif who == 'enkf':
            np.random.seed(c['seed'])
            self.f = EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), m, 1., 6, self.hx, self.fx)
            self.f.Q, self.f.R = c['Q'].copy(), c['R'].copy()
        elif who in ('hinf', 'fls'):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f = HInfinityFilter(n, m, 0, 0.001) if who == 'hinf' else FixedLagSmoother(n, m, N=2)
            f.x, f.P, f.F, f.H, f.Q = (c['x0'].reshape(-1, 1).copy(), c['P0'].copy(), c['F'].copy(),
                                       c['H'].copy(), c['Q'].copy())
            if who == 'hinf':
                f.W, f.V = c['Q'] * .1, c['R'].copy()
            else:
                f.R = c['R'].copy()
            self.f = f
        else:
            o = c['order']
            v = c['x0'] if who in ('gh', 'ghk') and not c['scalar'] else float(c['x0'][0])
            self.f = {'gh': lambda: gh.GHFilter(v, v, 1., .5, .2),
                      'ghk': lambda: gh.GHKFilter(v, v, v, 1., .5, .2, .1),
                      'order': lambda: gh.GHFilterOrder(np.arange(1., o + 2), 1., o, .5, .2, .1),
                      'memory': lambda: memory.FadingMemoryFilter(np.arange(1., o + 2), 1., o, .6),
                      'lsq': lambda: leastsq.LeastSquaresFilter(1., o, 2.)}[who]()

    def fx(self, x, dt):
        return self.c['F'].dot(x)

    def hx(self, x):
        return self.c['H'].dot(x)

    def predict(self, u=None):
        if self.who in ('imm', 'mmae'):
            self.f.predict(None)
        elif self.who in ('enkf', 'hinf'):
            if self.who == 'enkf':
                np.random.seed(11)
            self.f.predict()

    def update(self, z):
        if self.who in ('imm', 'mmae'):
            self.f.update(None if z is None else lin.shape_x(z, self.c['layout']))
        elif self.who == 'enkf':
            np.random.seed(12)
            self.f.update(z)
        elif self.who == 'hinf':
            self.f.update(None if z is None else z.reshape(-1, 1))
        elif self.who == 'fls':
            self.f.smooth(np.zeros((self.c['m'], 1)) if z is None else z.reshape(-1, 1))
        else:
            z = np.zeros(self.c['m']) if z is None else z
            if self.who in ('gh', 'ghk') and not self.c['scalar']:
                self.f.update(np.resize(z, self.c['n']))
            else:
                self.f.update(float(z[0]))


def model(g, max_x=4, max_z=3, q_spd=True):
    """a model on which every adapter is valid (positive definite Q, invertible F)"""
    c = lin.model(g, max_x, max_z)
    n = c['n']
    c['Q'] = g.spd(n, 1e-3, 10.)
    if abs(np.linalg.det(c['F'])) < 1e-2:
        c['F'] = np.eye(n) + 0.3 * np.triu(c['F'], 1)
    c['ut_alpha'] = g.choice([1., .5, .1, .9])
    c['ut_beta'] = g.choice([2., 0., 1.])
    c['ut_kappa'] = g.choice([0., 1., .5, 2.])
    return c


def history(g, c, lo=1, hi=8, none=2):
    """alternating predict/update history; each entry (u or None, z or None)"""
    out = []
    for _ in range(g.int(lo, hi)):
        u = g.vec(c['u_dim'], 4.) if c['B'] is not None and g.prob(6) else None
        z = None if g.prob(none) else g.vec(c['m'], 20.)
        out.append([u, z])
    return out
