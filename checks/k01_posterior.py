"""Linear Kalman filter (class form) == exact Gaussian posterior, for any history."""
import numpy as np
from filterpy import kalman
from filterpy.kalman import KalmanFilter
from vlib import lin, ref
from vlib.harness import Sub, close, require, Violation

PROPERTY = 'K01'
RULE = ('Random linear Gaussian models (1-4 states, 1-3 measurements, 0-2 controls; 1-D or '
        'column state) and random histories of predict/update/attribute-assignment with '
        'per-call overrides, missing measurements and every accepted measurement form; '
        'non-trivial: at least one predict and one real update that moved the estimate.')


def build(c):
    f = KalmanFilter(c['n'], c['m'], c['u_dim'])
    f.x = lin.shape_x(c['x0'], c['layout'])
    f.P = c['P0'].copy()
    f.F, f.Q, f.H, f.R = c['F'].copy(), c['Q'].copy(), c['H'].copy(), c['R'].copy()
    if c['B'] is not None:
        f.B = c['B'].copy()
    if c.get('x_int'):
        f.x = np.round(f.x).astype(int)
    if c.get('pinv'):
        f.inv = np.linalg.pinv
    return f


def gen(g):
    c = lin.model(g)
    c['ops'] = lin.ops(g, c, 1, 9)
    c['x_int'] = g.prob(1)
    if c['x_int']:
        c['x0'] = np.round(c['x0'])
    c['pinv'] = g.prob(1)
    return c


def apply_op(f, o, layout):
    """run one operation on a filter object; returns nothing"""
    if o['op'] == 'predict':
        kw = {k: o[k] for k in ('B', 'F', 'Q') if k in o}
        if 'u' in o:
            kw['u'] = lin.shape_u(o['u'], layout)
        f.predict(**kw)
    elif o['op'] == 'update':
        if o['z'] is None:
            f.update(None)
        else:
            kw = {k: o[k] for k in ('R', 'H') if k in o}
            f.update(lin.make_z(o['z'], o['form']), **kw)
    elif o['a'] == 'x':
        f.x = lin.shape_x(o['v'], layout)
    else:
        setattr(f, o['a'], o['v'])


def check_dense(c, ctx):
    f = build(c)
    n = c['n']
    cur = {k: c[k] for k in 'FQHRB'}
    d = ref.Dense(c['x0'], c['P0'])
    prior = d.posterior()
    kinds = set()
    for o in c['ops']:
        apply_op(f, o, c['layout'])
        if o['op'] == 'set':
            if o['a'] in ('x', 'P'):
                x, P = d.posterior()
                d = ref.Dense(o['v'] if o['a'] == 'x' else x, o['v'] if o['a'] == 'P' else P)
            else:
                cur[o['a']] = o['v']
            continue
        if o['op'] == 'predict':
            kinds.add('p')
            F = o.get('F', cur['F'])
            Q = lin.full(o.get('Q', cur['Q']), n)
            B = o.get('B', cur['B'])
            d.predict(F, Q, B.dot(o['u']) if 'u' in o else None)
            prior = d.posterior()
        elif o['z'] is not None:
            H = o.get('H', cur['H'])
            R = lin.full(o.get('R', cur['R']), len(H))
            bx, bP = d.posterior()
            d.update(lin.zval(o['z'], o['form']), H, R)
            S = H.dot(bP).dot(H.T) + R
            y = ref.col(lin.zval(o['z'], o['form'])) - H.dot(bx)
            sc = max(1., np.abs(bx).max())
            close(f.S, S, 'innovation covariance', 1e-7)
            close(f.y, y, 'innovation', 1e-6, sc, flat=True)
            close(f.K, np.linalg.solve(S, H.dot(bP)).T, 'gain', 1e-6, 1e-2)
            close(f.SI, np.linalg.inv(S), 'inverse innovation covariance', 1e-6)
            ctx.label('update:' + o['form'])
            if np.abs(H).max() > 0:
                kinds.add('u')
        else:
            ctx.label('missing')
        x, P = d.posterior()
        sx = max(1., float(np.abs(x).max()))
        ps = max(float(np.abs(P).max()), 1e-3 * float(np.abs(prior[1]).max()))
        shape = (n,) if c['layout'] == '1d' else (n, 1)
        require(np.shape(f.x) == shape, 'state shape %s became %s', shape, np.shape(f.x))
        close(f.x, x, 'state after %s' % o['op'], 1e-6, sx, flat=True)
        close(f.P, P, 'covariance after %s' % o['op'], 1e-6, ps)
        close(f.x_prior, prior[0], 'prior state', 1e-6, max(1., np.abs(prior[0]).max()), flat=True) \
            if 'p' in kinds else None
        if 'p' in kinds:
            close(f.P_prior, prior[1], 'prior covariance', 1e-6)
        if o['op'] == 'update':
            close(f.x_post, x, 'posterior state', 1e-6, sx, flat=True)
            close(f.P_post, P, 'posterior covariance', 1e-6, ps)
    ctx.label('n%d' % n, 'm%d' % c['m'], c['layout'])
    ctx.nt('p' in kinds and 'u' in kinds)


def gen_alpha(g):
    c = lin.model(g)
    c['ops'] = lin.ops(g, c, 2, 24, alpha=True)
    c['x_int'] = c['pinv'] = False
    c['alpha'] = g.float(1.0, 1.3)
    return c


def check_alpha(c, ctx):
    """long histories with a fading factor: posterior in information form each step"""
    f = build(c)
    f.alpha = c['alpha']
    close(f.alpha, c['alpha'], 'alpha reads back', 1e-12)
    n = c['n']
    cur = {k: c[k] for k in 'FQHRB'}
    cur['alpha'] = c['alpha']
    x, P = ref.col(c['x0']), c['P0']
    seen = set()
    for o in c['ops']:
        apply_op(f, o, c['layout'])
        if o['op'] == 'set':
            if o['a'] == 'x':
                x = ref.col(o['v'])
            elif o['a'] == 'P':
                P = o['v']
            else:
                cur[o['a']] = o['v']
            continue
        if o['op'] == 'predict':
            F, Q, B = o.get('F', cur['F']), lin.full(o.get('Q', cur['Q']), n), o.get('B', cur['B'])
            x, P = ref.kf_predict(x, P, F, Q, B.dot(o['u']) if 'u' in o else None, cur['alpha'])
            seen.add('p')
        elif o['z'] is not None:
            H = o.get('H', cur['H'])
            x, P, _, _, _ = ref.kf_update(x, P, lin.zval(o['z'], o['form']), H,
                                          lin.full(o.get('R', cur['R']), len(H)))
            seen.add('u')
        sx = max(1., float(np.abs(x).max()))
        close(f.x, x, 'state after %s' % o['op'], 1e-6, sx, flat=True)
        close(f.P, P, 'covariance after %s' % o['op'], 1e-6)
    ctx.label('len%d' % (10 * (len(c['ops']) // 10)))
    ctx.nt(len(seen) == 2)


def gen_certain(g):
    """parts of the state known exactly, measurements without noise"""
    c = lin.model(g, 4, 2, min_x=g.int(1, 2))
    n, m = c['n'], c['m']

    def singular(k, scale):
        """symmetric positive semi-definite, of any rank"""
        r = g.int(0, k)
        A = g.floats(k * r, 1.5).reshape(k, r) if r < k and g.bool() else \
            np.eye(k)[:, g.perm(k)[:r]]
        return scale * A.dot(A.T)
    if g.prob(7):
        c['P0'] = singular(n, g.logfloat(.1, 10.))
    if g.prob(7):
        c['R'] = singular(m, g.logfloat(.1, 10.))
    if g.prob(4):
        c['Q'] = singular(n, g.logfloat(.1, 10.))
    c['who'] = g.choice(['kf', 'kf', 'fkf', 'ekf', 'function'])
    c['ops'] = lin.ops(g, c, 1, 8, overrides=c['who'] == 'kf', forms=c['who'] == 'kf')
    for o in c['ops']:
        if o['op'] == 'set' and o['a'] in 'PR' and g.bool():
            o['v'] = singular(len(o['v']), 1.)
        if o['op'] == 'update' and o['z'] is not None and c['who'] != 'function' and g.prob(2):
            o['R'] = g.choice([0., 0, 0.])      # no noise this once
        if o['op'] == 'predict' and c['who'] == 'kf' and g.prob(2):
            o['Q'] = g.choice([0., 0, 0.])
    return c


def check_certain(c, ctx):
    n, who = c['n'], c['who']
    if who == 'function':
        x, P = lin.shape_x(c['x0'], c['layout']), c['P0'].copy()
    elif who == 'kf':
        f = build(c)
    else:
        f = (kalman.FadingKalmanFilter(1., n, c['m'], c['u_dim']) if who == 'fkf' else
             kalman.ExtendedKalmanFilter(n, c['m'], c['u_dim']))
        f.x, f.P, f.F, f.Q, f.R = (lin.shape_x(c['x0'], c['layout']), c['P0'].copy(), c['F'],
                                   c['Q'], c['R'])
        if who == 'fkf':
            f.H = c['H']
        if c['B'] is not None:
            f.B = c['B']
    cur = {k: c[k] for k in 'FQHRB'}
    ex, eP = ref.col(c['x0']), c['P0']
    seen = set()
    big = max(1., np.abs(ex).max())
    for o in c['ops']:
        H = o.get('H', cur['H'])
        if o['op'] == 'update' and o['z'] is not None:
            R = lin.full(o.get('R', cur['R']), len(H))
            S = H.dot(eP).dot(H.T) + R
            if np.linalg.cond(S) > 1e5 or np.linalg.eigvalsh(S)[0] < 1e-4:
                break
            zv = lin.zval(o['z'], o['form'])
            before = eP
            ex, eP, y, S, K = ref.kf_update(ex, eP, zv, H, R)
            seen.add('u')
            if np.linalg.matrix_rank(R, 1e-9) < len(R):
                ctx.label('exact measurement')
            if np.linalg.matrix_rank(before, 1e-9) < n:
                ctx.label('known state')
        elif o['op'] == 'predict':
            F, Q, B = o.get('F', cur['F']), lin.full(o.get('Q', cur['Q']), n), o.get('B', cur['B'])
            ex, eP = ref.kf_predict(ex, eP, F, Q, B.dot(o['u']) if 'u' in o else None)
            seen.add('p')
        elif o['op'] == 'set':
            if o['a'] == 'x':
                ex = ref.col(o['v'])
            elif o['a'] == 'P':
                eP = o['v']
            else:
                cur[o['a']] = o['v']
        if who == 'function':
            if o['op'] == 'predict':
                kw = {'u': lin.shape_x(o['u'], c['layout']), 'B': cur['B']} if 'u' in o else {}
                x, P = kalman.predict(x, P, cur['F'], cur['Q'], **kw)
            elif o['op'] == 'update':
                z = None if o['z'] is None else lin.shape_x(o['z'], c['layout'])
                x, P = kalman.update(x, P, z, cur['R'], cur['H'])
            elif o['a'] == 'x':
                x = lin.shape_x(o['v'], c['layout'])
            elif o['a'] == 'P':
                P = o['v']
        else:
            if o['op'] == 'set' and o['a'] == 'H' and who == 'ekf':
                continue
            if o['op'] == 'update' and who != 'kf':
                z = None if o['z'] is None else lin.shape_x(o['z'], c['layout'])
                f.update(z, *([lambda x: cur['H'], lambda x: cur['H'].dot(x)]
                              if who == 'ekf' else []), **({'R': o['R']} if 'R' in o else {}))
            else:
                apply_op(f, o, c['layout'])
            x, P = f.x, f.P
        big = max(big, np.abs(ex).max())
        close(x, ex, 'state of %s after %s' % (who, o['op']), 1e-7, big, flat=True)
        close(P, eP, 'covariance of %s after %s' % (who, o['op']), 1e-7, 1.)
        if who != 'function' and o['op'] == 'update' and o['z'] is not None:
            close(f.K, K, 'gain of ' + who, 1e-7, 1.)
            close(f.S, S, 'innovation covariance of ' + who, 1e-7, 1.)
            if who != 'fkf':
                ll = ref.gauss_logpdf(y, S)
                close(f.log_likelihood, ll, 'log-likelihood of ' + who, 1e-6, 1.)
        if np.abs(ex).max() > 1e6 or np.abs(eP).max() > 1e6:
            break
    ctx.label(who)
    ctx.nt(len(seen) == 2)


def gen_bad_alpha(g):
    return {'v': g.choice([0.999, 0., -1., -2., 0.5]) if g.bool() else g.float(-3., 0.9999),
            'arr': g.bool()}


def check_bad_alpha(c, ctx):
    f = KalmanFilter(2, 1)
    f.alpha = 1.25
    v = np.array([c['v'], 2.]) if c['arr'] else c['v']
    try:
        f.alpha = v
    except ValueError:
        pass
    else:
        raise Violation('alpha=%r was accepted' % (v,))
    close(f.alpha, 1.25, 'alpha after a rejected assignment', 1e-12)
    ctx.nt()


SUBS = [Sub('dense', gen, check_dense, 1600),
        Sub('alpha', gen_alpha, check_alpha, 700),
        Sub('certain', gen_certain, check_certain, 1200),
        Sub('bad_alpha', gen_bad_alpha, check_bad_alpha, 60)]
