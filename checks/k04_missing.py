"""A missing measurement (None) changes nothing, anywhere in any history."""
import warnings
import numpy as np
from filterpy import kalman
from filterpy.kalman import (IMMEstimator, MMAEFilterBank, EnsembleKalmanFilter, KalmanFilter)
from filterpy.hinfinity import HInfinityFilter
from vlib import filters, lin
from vlib.harness import Sub, same, close, require

PROPERTY = 'K04'
RULE = ('Random histories on every filter with missing measurements inserted at random places, '
        'compared with the same history without them; non-trivial: at least one missing and '
        'one real measurement.')

KINDS = list(filters.ALL) + ['imm', 'mmae', 'enkf', 'hinf', 'kf_corr', 'kf_ss', 'function',
                             'function_ss', 'kf_fresh']


class Other(object):
    """the filters which have no adapter"""

    def __init__(self, kind, c):
        self.kind, self.c = kind, c
        n, m = c['n'], c['m']
        col = lambda v: np.asarray(v, dtype=float).reshape(-1, 1)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind in ('imm', 'mmae'):
                fs = []
                for i in range(2):
                    d = dict(c)
                    d['Q'] = c['Q'] * (1. + 3 * i)
                    fs.append(filters.A('kf', d).f)
                self.f = IMMEstimator(fs, [.6, .4], np.array([[.9, .1], [.2, .8]])) \
                    if kind == 'imm' else MMAEFilterBank(fs, [.6, .4], n, H=c['H'])
            elif kind == 'enkf':
                np.random.seed(c['seed'])
                self.f = EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), m, 1., 8,
                                              lambda x: c['H'].dot(x),
                                              lambda x, dt: c['F'].dot(x))
                self.f.Q, self.f.R = c['Q'], c['R']
                self.rs = np.random.get_state()
            elif kind == 'hinf':
                self.f = HInfinityFilter(n, m, 0, .001)
                f = self.f
                f.x, f.P, f.F, f.H = col(c['x0']), c['P0'], c['F'], c['H']
                f.Q, f.W, f.V = c['Q'], c['Q'] * .1, c['R']
            elif kind.startswith('kf'):
                self.f = filters.A('kf', c).f
                if kind == 'kf_corr':
                    self.f.M = c['M']
                if kind == 'kf_ss':
                    self.f.K = c['K']
            else:
                self.f = None
                self.X, self.Pm = lin.shape_x(c['x0'], c['layout']), c['P0']

    def predict(self, u=None):
        k = self.kind
        if k == 'enkf':
            np.random.set_state(self.rs)
            self.f.predict()
            self.rs = np.random.get_state()
        elif k == 'kf_ss':
            self.f.predict_steadystate()
        elif k == 'function':
            self.X, self.Pm = kalman.predict(self.X, self.Pm, self.c['F'], self.c['Q'])
        elif k == 'function_ss':
            self.X = kalman.predict_steadystate(self.X, self.c['F'])
        else:
            self.f.predict()

    def update(self, z):
        k, c = self.kind, self.c
        if z is not None:
            z = np.array(z) if k == 'enkf' else \
                lin.shape_x(z, 'col' if k == 'hinf' else c['layout'])
        if k == 'enkf':
            np.random.set_state(self.rs)
            self.f.update(z)
            self.rs = np.random.get_state()
        elif k == 'kf_corr':
            self.f.update_correlated(z)
        elif k == 'kf_ss':
            self.f.update_steadystate(z)
        elif k == 'function':
            if z is None and c.get('all'):
                r = kalman.update(self.X, self.Pm, z, c['R'], c['H'], return_all=True)
                require(len(r) == 6, 'update(None, return_all=True) returned %d values', len(r))
                self.X, self.Pm = r[0], r[1]
            else:
                self.X, self.Pm = kalman.update(self.X, self.Pm, z, c['R'], c['H'])
        elif k == 'function_ss':
            self.X = kalman.update_steadystate(self.X, z, c['K'], c['H'])
        else:
            self.f.update(z)

    def x(self):
        return np.array(self.X if self.f is None else self.f.x, dtype=float).ravel()

    def P(self):
        return np.array(self.Pm if self.f is None else self.f.P, dtype=float)

    def x_post(self):
        if self.f is None or self.kind == 'hinf':
            return self.x()
        return np.array(self.f.x_post, dtype=float).ravel()

    def P_post(self):
        if self.f is None or self.kind == 'hinf':
            return self.P()
        return np.array(self.f.P_post, dtype=float)


def make(kind, c):
    return filters.A(kind, c) if kind in filters.ALL else Other(kind, c)


def gen(g):
    kind = g.choice(KINDS)
    c = filters.model(g, 3, 3)
    c['kind'] = kind
    c['M'] = g.mat(c['n'], c['m'], .05)
    c['K'] = g.mat(c['n'], c['m'], .3)
    c['all'] = g.bool()
    c['seed'] = g.int(0, 9999)
    ops = []
    for _ in range(g.int(2, 8)):
        ops.append('p')
        k = g.int(0, 3)
        ops.append(['z', 'N', 'zN', 'Nz'][k] if kind not in filters.SIGMA else
                   ['z', 'N', 'Nz', 'NN'][k])
    if g.prob(3):
        ops.insert(0, 'N')
    c['ops'] = ''.join(ops)
    c['zs'] = g.floats(3 * c['ops'].count('z') + 3, 20.)
    return c


def check(c, ctx):
    a, b = make(c['kind'], c), make(c['kind'], c)
    m = c['m']
    nz = 0
    for i, o in enumerate(c['ops']):
        if o == 'p':
            a.predict()
            b.predict()
        elif o == 'z':
            z = np.resize(np.roll(c['zs'], -nz), m)
            nz += 1
            a.update(z.copy())
            b.update(z.copy())
        else:
            x, P = a.x(), a.P()
            prob = np.array(getattr(getattr(a, 'f', None), 'p', 0.))
            mu = np.array(getattr(getattr(a, 'f', None), 'mu', 0.))
            a.update(None)
            same(a.x(), x, 'state after update(None)')
            same(a.P(), P, 'covariance after update(None)')
            same(a.x_post(), x, 'recorded posterior state after update(None)')
            close(a.P_post(), P, 'recorded posterior covariance after update(None)', 1e-9)
            if c['kind'].startswith('kf'):
                require(not np.any(a.f.y), 'innovation after update(None): %s', a.f.y)
            if c['kind'] in ('imm', 'mmae'):
                same(getattr(a.f, 'p', 0.), prob, 'filter probabilities after update(None)')
                same(getattr(a.f, 'mu', 0.), mu, 'mode probabilities after update(None)')
            if c['kind'] not in ('imm', 'hinf', 'function', 'function_ss'):
                zz = np.array(a.f.z, dtype=object).ravel()
                require(zz.size == m or c['kind'] in ('if', 'mmae'), 'recorded measurement has %d '
                        'elements after update(None)', zz.size)
                require(all(v is None for v in zz), 'recorded measurement after update(None): %s',
                        zz.tolist())
        same(a.x(), b.x(), 'state after %d operations (%s) of the history with gaps' % (
            i + 1, c['ops'][:i + 1]))
        same(a.P(), b.P(), 'covariance of the history with gaps')
    ctx.label(c['kind'])
    ctx.nt('z' in c['ops'] and 'N' in c['ops'])


# ------------------------------------------------ batches
def gen_batch(g):
    c = filters.model(g, 3, 3)
    c['kind'] = g.choice(['kf', 'fkf', 'hinf', 'ukf_merwe', 'ukf_simplex', 'function'])
    k = g.int(1, 7)
    c['mask'] = [g.prob(4) for _ in range(k)]
    c['zs'] = g.floats(k * c['m'], 20.).reshape(k, c['m'])
    c['first'] = g.bool()
    return c


def check_batch(c, ctx):
    """None in the measurement list of a batch == not having a measurement at that step"""
    kind = c['kind']
    col = kind in ('hinf', 'fkf') or (kind in ('kf', 'function') and c['layout'] == 'col')
    if kind == 'fkf':
        c['layout'] = 'col'
    zs = [None if mk else (z.reshape(-1, 1) if col else z) for z, mk in zip(c['zs'], c['mask'])]
    if c['m'] == 1 and not col:
        zs = [None if z is None else float(z[0]) for z in zs]
    k = len(zs)
    if kind == 'function':
        r = kalman.batch_filter(lin.shape_x(c['x0'], c['layout']), c['P0'], zs, [c['F']] * k,
                                [c['Q']] * k, [c['H']] * k, [c['R']] * k, update_first=c['first'])
    else:
        f = make(kind, c)
        r = f.f.batch_filter(zs) if kind.startswith('ukf') else \
            f.f.batch_filter(zs, update_first=c['first'])
    s = make(kind, c)
    for i, (z, mk) in enumerate(zip(c['zs'], c['mask'])):
        upd_first = c['first'] and not kind.startswith('ukf')
        if not upd_first:
            s.predict()
        if not mk:
            s.update(z)
        close(np.asarray(r[0][i]), s.x(), '%s batch state %d' % (kind, i), 1e-9, 1., flat=True)
        close(np.asarray(r[1][i]), s.P(), '%s batch covariance %d' % (kind, i), 1e-9)
        if upd_first:
            s.predict()
    ctx.label(kind + '-batch', 'first missing' if c['mask'][0] else 'first present')
    ctx.nt(any(c['mask']) and not all(c['mask']))


SUBS = [Sub('insert', gen, check, 1800), Sub('batch', gen_batch, check_batch, 700)]
