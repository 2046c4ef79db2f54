"""Function forms == the filter object == the scalar Kalman filter."""
import numpy as np
from filterpy import kalman
from filterpy.kalman import KalmanFilter
from vlib import lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'K12'
RULE = ('Random calls and chains of the stand-alone functions with plain numbers, 1-element arrays, '
        'vectors and columns, optional arguments left out or given by name or position, against the '
        'filter object and the reference recursion; whole batches, smoothing passes and fixed-gain '
        'steps against the object; non-trivial: a step that moved the estimate.')


def gen_chain(g):
    c = lin.model(g, 4, 3)
    c['steps'] = []
    for _ in range(g.int(1, 6)):
        if g.bool():
            c['steps'].append({'op': 'p', 'u': g.vec(c['u_dim'], 4.) if c['B'] is not None and
                               g.prob(6) else None, 'alpha': g.choice([None, None, 1.1, 1.4]),
                               'F': g.choice(['m', 'm', 'scalar', 'default']),
                               'Q': g.choice(['m', 'm', 'default']), 'pos': g.bool(),
                               'f': g.choice([1, -1, 2, .5, 1.25])})
        else:
            c['steps'].append({'op': 'u', 'z': g.vec(c['m'], 20.), 'all': g.bool(),
                               'form': lin.z_forms(g, c['m'], c['layout']), 'pos': g.bool(),
                               'R1': g.bool()})
    return c


def check_chain(c, ctx):
    n, m = c['n'], c['m']
    X, Pm = lin.shape_x(c['x0'], c['layout']), c['P0'].copy()
    f = KalmanFilter(n, m, c['u_dim'])
    f.x, f.P, f.H, f.R = X.copy(), Pm.copy(), c['H'], c['R']
    if c['B'] is not None:
        f.B = c['B']
    x, P = ref.col(c['x0']), c['P0']
    for s in c['steps']:
        if s['op'] == 'p':
            F = {'m': c['F'], 'scalar': np.eye(n) * s['f'], 'default': np.eye(n)}[s['F']]
            Q = c['Q'] if s['Q'] == 'm' else np.zeros((n, n))
            Bu = None if s['u'] is None else c['B'].dot(s['u'])
            a = 1. if s['alpha'] is None else s['alpha']
            x, P = ref.kf_predict(x, P, F, Q, Bu, a)
            kw = {}
            if s['F'] != 'default':
                kw['F'] = c['F'] if s['F'] == 'm' else s['f']
            if s['Q'] == 'm':
                kw['Q'] = c['Q']
            if s['u'] is not None:
                kw['u'], kw['B'] = lin.shape_x(s['u'], c['layout']), c['B']
            if s['alpha'] is not None:
                kw['alpha'] = s['alpha']
            if s['pos'] and s['u'] is not None:
                X, Pm = kalman.predict(X, Pm, kw.get('F', 1), kw.get('Q', 0), kw['u'], kw['B'],
                                       *([] if s['alpha'] is None else [s['alpha']]))
            else:
                X, Pm = kalman.predict(X, Pm, **kw)
            f.alpha = a
            f.predict(u=kw.get('u'), F=F, Q=Q)
        else:
            z = lin.zval(s['z'], s['form'])
            x, P, y, S, K = ref.kf_update(x, P, z, c['H'], c['R'])
            arg = lin.make_z(s['z'], s['form'])
            R = float(c['R'][0, 0]) if s['R1'] and m == 1 else c['R']
            if s['pos']:
                r = kalman.update(X, Pm, arg, R, c['H'], s['all'])
            else:
                r = kalman.update(x=X, P=Pm, z=arg, R=R, H=c['H'], return_all=s['all'])
            require(len(r) == (6 if s['all'] else 2), '%d results returned', len(r))
            X, Pm = r[:2]
            sx = max(1., np.abs(x).max(), np.abs(z).max())
            if s['all']:
                close(r[2], y, 'returned innovation', 1e-6, sx, flat=True)
                close(r[3], K, 'returned gain', 1e-6, 1e-2, flat=True)
                close(r[4], S, 'returned innovation covariance', 1e-7, flat=True)
                ll = ref.gauss_logpdf(y, S)
                require(abs(float(r[5]) - ll) <= 1e-6 * (10 + abs(ll)),
                        'returned log-likelihood %r, expected %r', r[5], ll)
            f.update(lin.make_z(s['z'], s['form']))
        sx = max(1., np.abs(x).max())
        sp = 1e-3 * np.abs(c['P0']).max()
        require(np.shape(X) == np.shape(f.x), 'state shape %s, the filter object has %s',
                np.shape(X), np.shape(f.x))
        close(X, f.x, 'state, function vs object', 1e-7, sx)
        close(Pm, f.P, 'covariance, function vs object', 1e-7, sp)
        close(X, x, 'state', 1e-6, sx, flat=True)
        close(Pm, P, 'covariance', 1e-6, sp)
        ctx.label(s['op'])
    ctx.label(c['layout'])
    ctx.nt(len(c['steps']) > 1)


def gen_scalar(g):
    return {'x': g.float(-50, 50), 'P': g.logfloat(1e-3, 1e3), 'int': g.prob(3),
            'np': g.choice(['plain', 'plain', 'np', 'a1', 'a11']),
            'steps': [{'op': g.choice(['p', 'u', 'pss', 'uss']), 'z': g.float(-60, 60),
                       'R': g.logfloat(1e-2, 1e2), 'H': g.choice([None, None, 1, 2., -.5, .25]),
                       'F': g.choice([None, 1, 1., .5, -2]), 'Q': g.choice([None, 0, .1, 3.]),
                       'u': g.choice([None, None, 0., 1.5, -2]), 'B': g.choice([None, 1., .5, -3]),
                       'K': g.choice([.1, .5, 1., 0.]), 'all': g.bool()}
                      for _ in range(g.int(1, 6))]}


def check_scalar(c, ctx):
    x, P = c['x'], c['P']
    if c['int']:
        x, P = round(x), max(1, round(P))
    wrap = {'plain': lambda v: v, 'np': np.float64, 'a1': lambda v: np.array([float(v)]),
            'a11': lambda v: np.array([[float(v)]])}[c['np']]
    wrap2 = wrap if c['np'] != 'a1' else (lambda v: np.array([[float(v)]]))
    X, Pm = wrap(x), wrap2(P)
    arr = c['np'] in ('a1', 'a11')
    x, P = float(x), float(P)
    for s in c['steps']:
        F, Q = 1. if s['F'] is None else s['F'], 0. if s['Q'] is None else s['Q']
        H = 1. if s['H'] is None else s['H']
        u, B = 0. if s['u'] is None else s['u'], 1. if s['B'] is None else s['B']
        kw = {}
        if s['op'] in ('p', 'pss'):
            if s['F'] is not None:
                kw['F'] = wrap2(s['F'])
            if s['u'] is not None:
                kw['u'] = wrap(s['u'])
                if s['B'] is not None:
                    kw['B'] = wrap2(s['B'])
                x = F * x + B * u
            else:
                x = F * x
            if s['op'] == 'p':
                if s['Q'] is not None:
                    kw['Q'] = wrap2(s['Q'])
                X, Pm = kalman.predict(X, Pm, **kw)
                P = F * F * P + Q
            else:
                X = kalman.predict_steadystate(X, **kw)
        else:
            if s['H'] is not None:
                kw['H'] = wrap2(s['H'])
            y = s['z'] - H * x
            z = s['z'] if not arr else wrap(s['z'])
            if s['op'] == 'u':
                S = H * P * H + s['R']
                K = P * H / S
                r = kalman.update(X, Pm, z, wrap2(s['R']), return_all=s['all'], **kw)
                X, Pm = r[:2]
                x, P = x + K * y, P * s['R'] / S
                if s['all']:
                    sy = max(1., abs(x), abs(s['z']))
                    close(r[2], y, 'returned innovation', 1e-9, sy, flat=True)
                    close(r[3], K, 'returned gain', 1e-9, 1e-3, flat=True)
                    close(r[4], S, 'returned innovation variance', 1e-9, flat=True)
                    ll = ref.gauss_logpdf(y, S)
                    require(abs(float(r[5]) - ll) <= 1e-6 * (10 + abs(ll)),
                            'returned log-likelihood %r, expected %r', r[5], ll)
            else:
                X = kalman.update_steadystate(X, z, wrap2(s['K']), **kw)
                x = x + s['K'] * y
        require(np.size(X) == 1 and np.size(Pm) == 1, 'one-dimensional results became %r, %r', X, Pm)
        close(X, x, 'state after ' + s['op'], 1e-8, max(1., abs(s['z'])), flat=True)
        close(Pm, P, 'variance after ' + s['op'], 1e-8, 1e-6, flat=True)
        if not arr and s['op'] in ('u', 'uss'):
            # the documented "plain numbers in, plain numbers out" up to one-element arrays
            X, Pm = float(np.ravel(X)[0]), float(np.ravel(Pm)[0])
        if c['np'] == 'a1':
            X, Pm = np.reshape(X, (1,)), np.reshape(Pm, (1, 1))
        if c['np'] == 'a11':
            X, Pm = np.reshape(X, (1, 1)), np.reshape(Pm, (1, 1))
        ctx.label(s['op'])
    ctx.label(c['np'])
    ctx.nt(len(c['steps']) > 1)


def gen_passes(g):
    c = lin.model(g, 4, 3)
    n, m, k = c['n'], c['m'], g.int(2, 6)
    c['k'], c['first'] = k, g.bool()
    c['Fs'] = [g.trans(n) for _ in range(k)]
    c['Qs'] = [g.psd(n, 1e-2, 10.) for _ in range(k)]
    c['Hs'] = [g.mat(m, n) for _ in range(k)]
    c['Rs'] = [g.spd(m, 1e-1, 30.) for _ in range(k)]
    c['zs'] = [None if g.prob(1) else g.vec(m, 20.) for _ in range(k)]
    c['us'] = [g.vec(c['u_dim'], 4.) for _ in range(k)] if c['B'] is not None and g.bool() else None
    # a fixed gain, square ones included
    c['sn'], c['sm'] = g.int(1, 4), g.int(1, 4)
    if g.bool():
        c['sm'] = c['sn']
    c['K'], c['H'] = g.mat(c['sn'], c['sm']), g.mat(c['sm'], c['sn'])
    c['x'], c['z'], c['F1'] = g.vec(c['sn']), g.vec(c['sm'], 20.), g.trans(c['sn'])
    c['B1'], c['u1'] = g.mat(c['sn'], 2), g.vec(2)
    return c


def check_passes(c, ctx):
    """whole passes and the fixed-gain steps, function against object"""
    n, m, k, lay = c['n'], c['m'], c['k'], c['layout']
    f = KalmanFilter(n, m, c['u_dim'])
    f.x, f.P = lin.shape_x(c['x0'], lay), c['P0'].copy()
    f.B = c['B']
    zs = [None if z is None else lin.shape_x(z, lay) for z in c['zs']]
    us = None if c['us'] is None else [lin.shape_u(u, lay) for u in c['us']]
    a = f.batch_filter(zs, Fs=c['Fs'], Qs=c['Qs'], Hs=c['Hs'], Rs=c['Rs'], us=us,
                       update_first=c['first'])
    b = kalman.batch_filter(lin.shape_x(c['x0'], lay), c['P0'].copy(), zs, c['Fs'], c['Qs'], c['Hs'],
                            c['Rs'], None if us is None else [c['B']] * k, us, c['first'])
    names = ('means', 'covariances', 'prior means', 'prior covariances')
    for name, u, v in zip(names, a, b):
        close(v, u, name + ' of a batch, function vs object', 1e-7, 1e-3 * np.abs(u).max())
    mats = [M for M in c['Fs']]
    if min(np.linalg.eigvalsh(P)[0] / max(1e-9, np.abs(P).max()) for P in a[3]) > 1e-6:
        r = f.rts_smoother(a[0], a[1], Fs=mats, Qs=c['Qs'])
        s = kalman.rts_smoother(a[0].copy(), a[1].copy(), mats, c['Qs'])
        require(len(s) == len(r), 'the smoother returns %d results, the object %d', len(s), len(r))
        for name, u, v in zip(('states', 'covariances', 'gains', 'predicted covariances'), r, s):
            close(v, u, 'smoothed %s, function vs object' % name, 1e-6, 1e-2 * np.abs(u).max())
    # fixed gain
    f = KalmanFilter(c['sn'], c['sm'], 2)
    f.x, f.H, f.K, f.F, f.B = lin.shape_x(c['x'], lay), c['H'], c['K'], c['F1'], c['B1']
    x = lin.shape_x(c['x'], lay)
    for _ in range(2):
        f.predict_steadystate(lin.shape_u(c['u1'], lay))
        x = kalman.predict_steadystate(x, c['F1'], lin.shape_u(c['u1'], lay), c['B1'])
        close(x, f.x, 'steady-state prediction, function vs object', 1e-9, np.abs(f.x).max())
        f.update_steadystate(lin.shape_x(c['z'], lay))
        x = kalman.update_steadystate(x, lin.shape_x(c['z'], lay), c['K'], c['H'])
        close(x, f.x, 'steady-state update, function vs object', 1e-9,
              max(np.abs(c['z']).max(), np.abs(f.x).max()))
    ctx.label('update first' if c['first'] else 'predict first', lay)
    ctx.nt(sum(z is not None for z in zs) > 1)


def gen_scaled(g):
    c = lin.model(g, 3, 2) if g.bool() else lin.model(g, 1, 1)
    c['a'] = g.int(-24, 24)
    c['b'] = g.choice([c['a'], g.int(-24, 24)])
    c['form'] = g.choice(['number', 'np', 'a1', 'matrix']) if c['n'] == c['m'] == 1 else 'matrix'
    c['H'] = np.array([[g.choice([1., 2., -.5])]]) if c['n'] == c['m'] == 1 else c['H']
    c['K'] = g.mat(c['n'], c['m'])
    c['steps'] = [{'op': g.choice(['p', 'u', 'u', 'pss', 'uss']), 'z': g.vec(c['m'], 20.),
                   'u': g.vec(c['u_dim'], 4.) if c['B'] is not None else None} for _ in range(g.int(1, 5))]
    return c


def run_scaled(c, sx, sz):
    """the same calls with the state in units sx and the measurement in units sz"""
    n, form = c['n'], c['form']

    def mat(M):
        return {'number': lambda: float(M[0, 0]), 'np': lambda: np.float64(M[0, 0]),
                'a1': lambda: np.array([[float(M[0, 0])]]), 'matrix': lambda: np.array(M)}[form]()

    def vec(v):
        if form in ('number', 'np'):
            return mat(np.reshape(v, (1, 1)))
        return np.array(v) if form == 'a1' else lin.shape_x(v, c['layout'])

    X, P = vec(c['x0'] * sx), mat(c['P0'] * sx * sx)
    H, R, Q = mat(c['H'] * (sz / sx)), mat(c['R'] * sz * sz), mat(c['Q'] * sx * sx)
    out = []
    for s in c['steps']:
        kw = {}
        if s['op'][0] == 'p' and s['u'] is not None and form == 'matrix':
            kw = {'u': lin.shape_u(s['u'], c['layout']), 'B': c['B'] * sx}
        if s['op'] == 'p':
            X, P = kalman.predict(X, P, F=mat(c['F']), Q=Q, **kw)
        elif s['op'] == 'pss':
            X = kalman.predict_steadystate(X, F=mat(c['F']), **kw)
        elif s['op'] == 'uss':
            X = kalman.update_steadystate(X, vec(s['z'] * sz), mat(c['K'] * (sx / sz)), H)
        else:
            X, P, y, K, S, ll = kalman.update(X, P, vec(s['z'] * sz), R, H, return_all=True)
            out += [('innovation', np.ravel(y) / sz), ('gain', np.ravel(K) * (sz / sx)),
                    ('innovation covariance', np.ravel(S) / sz / sz),
                    ('log-likelihood', np.ravel(ll) + c['m'] * np.log(sz))]
        out += [('state after ' + s['op'], np.ravel(X) / sx), ('covariance', np.ravel(P) / sx / sx)]
        if form in ('number', 'np'):
            X, P = float(np.ravel(X)[0]), float(np.ravel(P)[0])
        elif form == 'a1':
            X, P = np.reshape(X, (1,)), np.reshape(P, (1, 1))
    return out


def check_scaled(c, ctx):
    """units that are powers of two change nothing but the units"""
    a, b = run_scaled(c, 1., 1.), run_scaled(c, 2. ** c['a'], 2. ** c['b'])
    for (name, v), (_, w) in zip(a, b):
        close(w, v, '%s, units of 2^%d and 2^%d' % (name, c['a'], c['b']), 1e-9,
              1. if name == 'log-likelihood' else 1e-6 * (1. + np.abs(c['x0']).max()))
    ctx.label(c['form'])
    ctx.nt(c['a'] != 0 and any(s['op'] == 'u' for s in c['steps']))


SUBS = [Sub('scaled', gen_scaled, check_scaled, 1200), Sub('chain', gen_chain, check_chain, 1500), Sub('scalar', gen_scalar, check_scalar, 1500),
        Sub('passes', gen_passes, check_passes, 500)]
