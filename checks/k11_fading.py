"""Fading memory: the propagated covariance is inflated by alpha squared, nothing else."""
import warnings
import numpy as np
from filterpy import kalman
from filterpy.kalman import KalmanFilter, FadingKalmanFilter
from vlib import lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'K11'
RULE = ('Random models, fading factors 1-1.6 (changing during the run) and histories on the fading '
        'filter class, the Kalman filter with a fading factor and the predict function, against '
        'the reference recursion; non-trivial: factor above one, a predict and an update.')


def gen(g):
    c = lin.model(g, 4, 3)
    c['kind'] = g.choice(['fkf', 'kf', 'fun'])
    c['alpha'] = g.choice([1., 1.02, 1.2]) if g.bool() else g.float(1., 1.6)
    ops = []
    for _ in range(g.int(1, 12)):
        k = g.choice(['predict', 'update', 'predict', 'update', 'look', 'alpha', 'set'])
        o = {'op': k}
        if k in ('predict', 'look'):
            o['u'] = g.vec(c['u_dim'], 4.) if c['B'] is not None and g.prob(6) else None
        elif k == 'update':
            o['z'] = g.vec(c['m'], 20.)
            o['R'] = [None, g.spd(c['m'], 1e-2, 30.), g.logfloat(1e-2, 30.)][
                g.choice([0, 0, 1, 2])]
        elif k == 'alpha':
            o['v'] = g.choice([1., 1.5]) if g.bool() else g.float(1., 1.6)
        else:
            o['a'] = g.choice(['F', 'Q', 'H', 'R'])
            o['v'] = {'F': lambda: g.trans(c['n']), 'Q': lambda: g.psd(c['n'], 1e-3, 10.),
                      'H': lambda: g.mat(c['m'], c['n']),
                      'R': lambda: g.spd(c['m'], 1e-2, 30.)}[o['a']]()
        ops.append(o)
    c['ops'] = ops
    return c


class Fun(object):
    """the function form behind the same face"""

    def predict(self, u=None):
        kw = {} if u is None else {'u': u, 'B': self.B}
        self.x, self.P = kalman.predict(self.x, self.P, self.F, self.Q, alpha=self.alpha, **kw)
        self.x_prior, self.P_prior = self.x, self.P

    def get_prediction(self, u=None):
        kw = {} if u is None else {'u': u, 'B': self.B}
        return kalman.predict(self.x, self.P, F=self.F, Q=self.Q, alpha=self.alpha, **kw)

    def update(self, z, R=None):
        R = self.R if R is None else lin.full(R, len(self.H))
        self.x, self.P = kalman.update(self.x, self.P, z, R, self.H)
        self.x_post, self.P_post = self.x, self.P


def check(c, ctx):
    n, k = c['n'], c['kind']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = (FadingKalmanFilter(c['alpha'], n, c['m'], c['u_dim']) if k == 'fkf' else
             KalmanFilter(n, c['m'], c['u_dim']) if k == 'kf' else Fun())
    if k != 'fkf':
        f.alpha = c['alpha']
    f.x = lin.shape_x(c['x0'], c['layout'])
    f.P, f.F, f.Q, f.H, f.R = c['P0'].copy(), c['F'], c['Q'], c['H'], c['R']
    if c['B'] is not None:
        f.B = c['B']
    x, P = ref.col(c['x0']), c['P0']
    alpha = c['alpha']
    seen = set()
    for o in c['ops']:
        if o['op'] in ('predict', 'look'):
            kw = {} if o['u'] is None else {'u': lin.shape_x(o['u'], c['layout'])}
            nx, nP = ref.kf_predict(x, P, f.F, f.Q, None if o['u'] is None else c['B'].dot(o['u']),
                                    alpha)
            sx = max(1., np.abs(nx).max())
            if o['op'] == 'look':
                gx, gP = f.get_prediction(**kw)
                close(gx, nx, 'predicted-ahead state', 1e-7, sx, flat=True)
                close(gP, nP, 'predicted-ahead covariance', 1e-7)
                continue
            f.predict(**kw)
            x, P = nx, nP
            close(f.x_prior, x, 'prior', 1e-7, sx, flat=True)
            close(f.P_prior, P, 'prior covariance', 1e-7)
            seen.add('p' if alpha > 1 else '1')
        elif o['op'] == 'update':
            z = lin.shape_x(o['z'], c['layout'])
            if o['R'] is None:
                f.update(z)
            else:
                f.update(z, R=o['R'])
            R = f.R if o['R'] is None else lin.full(o['R'], c['m'])
            x, P, y, S, K = ref.kf_update(x, P, o['z'], f.H, R)
            sx = max(1., np.abs(x).max())
            close(f.x_post, x, 'posterior', 1e-6, sx, flat=True)
            close(f.P_post, P, 'posterior covariance', 1e-6, 1e-3 * np.abs(c['P0']).max())
            if k != 'fun':
                close(f.y, y, 'innovation', 1e-6, sx, flat=True)
                close(f.S, S, 'innovation covariance', 1e-7)
                close(f.K, K, 'gain', 1e-6, 1e-2)
            seen.add('u')
        elif o['op'] == 'alpha':
            alpha = o['v']
            if k == 'fkf':
                f.alpha_sq = alpha ** 2
            else:
                f.alpha = alpha
            close(f.alpha, alpha, 'factor reads back', 1e-12)
        else:
            setattr(f, o['a'], o['v'])
        close(f.x, x, 'state after ' + o['op'], 1e-6, max(1., np.abs(x).max()), flat=True)
        close(f.P, P, 'covariance after ' + o['op'], 1e-6, 1e-3 * np.abs(c['P0']).max())
        require(np.shape(f.x) == ((n,) if c['layout'] == '1d' else (n, 1)), 'state shape %s',
                np.shape(f.x))
    ctx.label(k, c['layout'], *sorted(seen))
    ctx.nt('p' in seen and 'u' in seen)


SUBS = [Sub('histories', gen, check, 2400)]
