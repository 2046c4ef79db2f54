"""Extended Kalman filter: exact Gaussian update of the problem linearised at the prior."""
import numpy as np
from filterpy.kalman import ExtendedKalmanFilter
from vlib import lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'N01'
RULE = ('Random nonlinear measurement and motion functions, callback arguments, residual functions, '
        'noise overrides and histories; every callback argument is recorded and every step is '
        'compared with an independent linearised update; non-trivial: at least one update with a '
        'non-zero Jacobian that depends on the state.')


def wrap(a):
    return (np.asarray(a) + np.pi) % (2 * np.pi) - np.pi


def gen(g):
    c = lin.model(g, 4, 3)
    n, m = c['n'], c['m']
    c['A'], c['D'] = g.mat(m, n), g.mat(m, n, 1.)
    c['s'] = g.choice([0., .5, 1., 3.])
    # a second sensor, perhaps of another size
    c['m2'] = g.int(1, 4)
    c['A2'], c['D2'] = g.mat(c['m2'], n), g.mat(c['m2'], n, 1.)
    c['motion'] = g.prob(3)
    c['ops'] = []
    for _ in range(g.int(1, 8)):
        k = g.choice(['predict', 'update', 'both', 'predict', 'update', 'set'])
        o = {'op': k}
        if k in ('predict', 'both'):
            o['u'] = g.vec(c['u_dim'], 4.) if c['B'] is not None and g.prob(6) else None
        if k in ('update', 'both'):
            o['z'] = None if g.prob(1) else g.vec(m, 6.)
            o['zscalar'] = g.bool()
            o['args'] = g.choice(['none', 'tuple', 'bare', 'whole'])
            o['hx_args'] = g.choice(['none', 'tuple', 'bare', 'whole'])
            o['a'], o['b'] = g.choice([1., .5, 2.]), g.choice([0., 1., -3.])
        if k == 'update':
            o['other'] = g.prob(3)
            if o['other'] and o['z'] is not None:
                o['z'] = g.vec(c['m2'], 6.)
                o['zscalar'] = False
            o['R'] = [None, g.spd(c['m2'] if o['other'] else m, 1e-2, 30.), g.logfloat(1e-2, 30.)][
                g.choice([1, 2] if o['other'] else [0, 0, 1, 2])]
            o['res'] = g.choice(['default', 'default', 'wrap', 'double', 'uneven'])
        if k == 'set':
            o['w'] = g.choice(['F', 'Q', 'R', 'x', 'P'])
            o['v'] = {'F': lambda: g.trans(n), 'Q': lambda: g.psd(n, 1e-3, 10.),
                      'R': lambda: g.spd(m, 1e-2, 30.), 'x': lambda: g.vec(n),
                      'P': lambda: g.spd(n)}[o['w']]()
        c['ops'].append(o)
    return c


class Model(object):
    def __init__(self, c):
        self.c = c
        self.calls = []
        self.other = False

    def AD(self):
        return (self.c['A2'], self.c['D2']) if self.other else (self.c['A'], self.c['D'])

    def h(self, x, a=1., b=0.):
        x = ref.col(x)
        a, b = (a, b) if np.isscalar(a) else a       # a landmark, handed over as one thing
        A, D = self.AD()
        return A.dot(x) + self.c['s'] * np.sin(a * D.dot(x)) + b

    def H(self, x, a=1., b=0.):
        x = ref.col(x)
        a, b = (a, b) if np.isscalar(a) else a
        A, D = self.AD()
        return A + self.c['s'] * a * np.cos(a * D.dot(x)) * D

    def hx(self, x, *args):
        self.calls.append(('hx', np.array(x), args))
        r = self.h(x, *args)
        return r if self.c['layout'] == 'col' else r.ravel()

    def jac(self, x, *args):
        self.calls.append(('jac', np.array(x), args))
        return self.H(x, *args)

    def move(self, x):
        x = ref.col(x)
        return self.c['F'].dot(x) + np.sin(x)


def check(c, ctx):
    n, m, lay = c['n'], c['m'], c['layout']
    M = Model(c)

    class Moving(ExtendedKalmanFilter):
        """a nonlinear motion model, as the documentation of predict_x suggests"""

        def predict_x(self, u=0):
            self.x = M.move(self.x).reshape(np.shape(self.x))
            if u is not None and np.any(u):
                self.x = self.x + np.dot(self.B, u)

    f = (Moving if c['motion'] else ExtendedKalmanFilter)(n, m, c['u_dim'])
    f.x = lin.shape_x(c['x0'], lay)
    f.P, f.F, f.Q, f.R = c['P0'].copy(), c['F'], c['Q'], c['R']
    if c['B'] is not None:
        f.B = c['B']
    done = False
    for o in c['ops']:
        if o['op'] == 'set':
            setattr(f, o['w'], lin.shape_x(o['v'], lay) if o['w'] == 'x' else o['v'])
            continue
        x, P = ref.col(f.x), np.array(f.P)
        u = None if o.get('u') is None else lin.shape_x(o['u'], lay)
        if o['op'] in ('predict', 'both'):
            _, P = ref.kf_predict(x, P, f.F, f.Q)
            x = M.move(x) if c['motion'] else f.F.dot(x)
            if u is not None:
                x = x + c['B'].dot(ref.col(u))
        px, pP = x, P
        if o['op'] == 'predict':
            f.predict() if u is None else f.predict(u)
        else:
            forms = {'none': lambda a, b: ((), {}), 'tuple': lambda a, b: ((a, b), {}),
                     'bare': lambda a, b: ((a,), {}),
                     'whole': lambda a, b: (([a, b] if c['n'] > 1 else np.array([a, b]),), {})}
            ja = forms[o['args']](o['a'], o['b'])[0]
            ha = forms[o['hx_args']](o['a'], o['b'])[0]
            kw = {}
            if o['args'] != 'none':
                kw['args'] = ja if o['args'] == 'tuple' else ja[0]
            if o['hx_args'] != 'none':
                kw['hx_args'] = ha if o['hx_args'] == 'tuple' else ha[0]
            z = None
            if o['z'] is not None:
                z = float(o['z'][0]) if m == 1 and o['zscalar'] else lin.shape_x(o['z'], lay)
            R = f.R
            res = None
            if o['op'] == 'update':
                if o['R'] is not None:
                    kw['R'], R = o['R'], lin.full(o['R'], c['m2'] if o['other'] else m)
                if o['res'] != 'default':
                    res = {'wrap': lambda a, b: wrap(np.subtract(a, b)),
                           'double': lambda a, b: 2. * np.subtract(a, b),
                           'uneven': lambda a, b: np.subtract(2. * np.asarray(a), b)}[o['res']]
                    kw['residual'] = res
            M.calls = []
            M.other = o.get('other', False)
            if o['op'] == 'both':
                if u is not None:
                    kw['u'] = u
                f.predict_update(z, M.jac, M.hx, **kw)
            else:
                f.update(z, M.jac, M.hx, **kw)
            if z is not None:
                H = M.H(px, *ja)
                zz = ref.col(o['z'])
                y = (res or np.subtract)(zz, M.h(px, *ha))
                K, S = ref.kf_gain(pP, H, R)
                x, P = px + K.dot(y), ref.sym(pP - K.dot(S).dot(K.T))
                sx = max(1., np.abs(x).max())
                for what, at, args in M.calls:
                    close(at, px, what + ' evaluated at', 1e-9, max(1., np.abs(px).max()), flat=True)
                    same(list(args), list(ja if what == 'jac' else ha), 'arguments of ' + what)
                require({q[0] for q in M.calls} == {'hx', 'jac'}, 'callbacks used: %r', M.calls)
                close(f.y, y, 'residual', 1e-7, max(1., np.abs(o['z']).max()), flat=True)
                close(f.S, S, 'innovation covariance', 1e-8)
                close(f.K, K, 'gain', 1e-7, 1e-2)
                ll = ref.gauss_logpdf(y, S)
                require(abs(f.log_likelihood - ll) <= 1e-6 * (10 + abs(ll)),
                        'log-likelihood %r, expected %r', f.log_likelihood, ll)
                close(np.array(f.z, dtype=float), o['z'], 'recorded measurement', 1e-12, flat=True)
                done = done or np.abs(H).max() > 0 and c['s'] > 0
            else:
                require(not M.calls, 'callbacks ran without a measurement')
            close(f.x_post, x, 'recorded posterior', 1e-7, max(1., np.abs(x).max()), flat=True)
            close(f.P_post, P, 'recorded posterior covariance', 1e-7,
                  1e-3 * np.abs(pP).max())
        close(f.x, x, 'state after ' + o['op'], 1e-7, max(1., np.abs(x).max()), flat=True)
        close(f.P, P, 'covariance after ' + o['op'], 1e-7, 1e-3 * np.abs(pP).max())
        require(np.shape(f.x) == ((n,) if lay == '1d' else (n, 1)), 'state shape %s', np.shape(f.x))
        if o['op'] in ('predict', 'both'):
            close(f.x_prior, px, 'recorded prior', 1e-7, max(1., np.abs(px).max()), flat=True)
            close(f.P_prior, pP, 'recorded prior covariance', 1e-7)
        ctx.label(o['op'], o.get('res', ''), 'other sensor' if o.get('other') else '')
    ctx.label(lay, 'nonlinear motion' if c['motion'] else 'linear motion')
    ctx.nt(done)


SUBS = [Sub('histories', gen, check, 2500)]
