"""Several measurements: joint == sequential == any order; correlated noise is exact."""
import numpy as np
from filterpy import kalman
from vlib import filters, lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'K08'
RULE = ('Random measurement vectors processed jointly, component/block-wise, in permuted order, '
        'stacked, and with noise correlated with the state error, against direct Gaussian '
        'conditioning; non-trivial: at least two scalar measurements (or a non-zero '
        'cross-covariance).')


def gen_seq(g):
    c = lin.model(g, 4, 3)
    m = c['m'] = g.int(1, 4)
    c['H'] = g.mat(m, c['n'])
    c['z'] = g.vec(m, 20.)
    cuts = sorted(set([0, m] + [g.int(0, m) for _ in range(2)]))
    c['blocks'] = [[a, b] for a, b in zip(cuts[:-1], cuts[1:])]
    R = np.zeros((m, m))
    for a, b in c['blocks']:
        R[a:b, a:b] = g.spd(b - a, 1e-2, 30.)
    c['R'] = R
    c['order'] = g.perm(len(c['blocks']))
    c['Ri'] = g.choice(['attr', 'arg', 'scalar'])
    c['Hi'] = g.choice(['attr', 'arg', 'flat'])
    c['zf'] = g.choice(['array', 'list', 'col', 'scalar'])
    c['steps'] = g.int(1, 3)
    return c


def check_seq(c, ctx):
    a, b = filters.A('kf', c).f, filters.A('kf', c).f
    n, m, R = c['n'], c['m'], c['R'].copy()
    if c['Ri'] == 'scalar':
        for s, e in c['blocks']:
            R[s:e, s:e] = np.eye(e - s) * R[s, s]
    a.R = R
    if c['Ri'] == 'attr':
        b.R = R
    else:
        b.R = np.eye(m) * 1234.
    if c['Hi'] != 'attr':
        b.H = np.ones((m, n)) * 7.
    x, P = ref.col(c['x0']), c['P0']
    for t in range(c['steps']):
        a.predict()
        b.predict()
        x, P = ref.kf_predict(x, P, c['F'], c['Q'])
        z = np.roll(c['z'], t)
        a.update(lin.shape_x(z, c['layout']))
        x, P, y, S, K = ref.kf_update(x, P, z, c['H'], R)
        xp, Pp = b.x_prior.copy(), b.P_prior.copy()
        for i in c['order']:
            s, e = c['blocks'][i]
            zi = lin.make_z(z[s:e], c['zf'] if (e - s == 1 or c['zf'] != 'scalar') else 'array')
            kw = {}
            if c['Ri'] != 'attr':
                kw['R_i'] = R[s:e, s:e].copy() if c['Ri'] == 'arg' else float(R[s, s])
            if c['Hi'] != 'attr':
                kw['H_i'] = c['H'][s:e].copy() if c['Hi'] == 'arg' or e - s > 1 else c['H'][s].copy()
            b.update_sequential(s, zi, **kw)
        sx = max(1., np.abs(x).max())
        ps = 1e-2 * np.abs(c['P0']).max()
        close(b.x, a.x, 'sequential state vs joint state', 1e-6, sx)
        close(b.P, a.P, 'sequential covariance vs joint covariance', 1e-6, ps)
        close(b.x, x, 'sequential state', 1e-6, sx, flat=True)
        close(b.P, P, 'sequential covariance', 1e-6, ps)
        same(b.x_post, b.x, 'recorded posterior')
        same(b.P_post, b.P, 'recorded posterior covariance')
        same(b.x_prior, xp, 'prior after sequential updates')
        close(np.array(b.z, dtype=float), z, 'recorded measurement', 1e-12, flat=True)
        if len(c['blocks']) == 1:
            close(b.y, y, 'innovation', 1e-7, sx, flat=True)
            close(b.K, K, 'gain', 1e-6, 1e-2)
    ctx.label('blocks%d' % len(c['blocks']), c['Ri'], c['Hi'], c['layout'])
    ctx.nt(m >= 2 and len(c['blocks']) > 1)


def gen_stack(g):
    c = lin.model(g, 4, 2)
    c['kind'] = g.choice(['kf', 'srkf', 'if', 'ekf', 'fkf', 'function'])
    c['Q'] = g.spd(c['n'], 1e-3, 10.)
    c['F'] = np.eye(c['n'])
    c['H2'] = g.mat(c['m'], c['n'])
    c['z'] = g.vec(c['m'], 20.)
    c['z2'] = g.vec(c['m'], 20.)
    c['R2'] = g.spd(c['m'], 1e-2, 30.)
    return c


def one(c, items):
    """apply the (z, H, R) items one after another with a fresh filter"""
    if c['kind'] == 'function':
        x, P = lin.shape_x(c['x0'], c['layout']), c['P0']
        for z, H, R in items:
            x, P = kalman.update(x, P, lin.shape_x(z, c['layout']), R, H)
        return np.ravel(x), P
    d = dict(c)
    d['m'], d['H'], d['R'] = len(items[0][1]), items[0][1], items[0][2]
    a = filters.A(c['kind'], d)
    for z, H, R in items:
        a.given['H'] = H
        if c['kind'] != 'ekf':
            a.f.H = H
        if c['kind'] == 'if':
            a.f.R_inv = np.linalg.inv(R)
        else:
            a.f.R = R
        a.update(z)
    return a.x(), a.P()


def check_stack(c, ctx):
    A1, A2 = (c['z'], c['H'], c['R']), (c['z2'], c['H2'], c['R2'])
    m = c['m']
    Z = np.zeros((m, m))
    J = (np.concatenate([c['z'], c['z2']]), np.vstack([c['H'], c['H2']]),
         np.block([[c['R'], Z], [Z, c['R2']]]))
    xe, Pe, _, _, _ = ref.kf_update(ref.col(c['x0']), c['P0'], *J)
    sx = max(1., np.abs(xe).max())
    for items, what in (([A1, A2], 'first then second'), ([A2, A1], 'second then first'),
                        ([J], 'stacked')):
        x, P = one(c, items)
        close(x, xe, '%s state, %s' % (c['kind'], what), 1e-6, sx, flat=True)
        close(P, Pe, '%s covariance, %s' % (c['kind'], what), 1e-6, 1e-3 * np.abs(c['P0']).max())
    ctx.label(c['kind'])
    ctx.nt(np.abs(c['H']).max() > 0 and np.abs(c['H2']).max() > 0)


def gen_corr(g):
    c = lin.model(g, 4, 3)
    n, m = c['n'], c['m']
    c['W'] = g.mat(n, m, 1.) * g.choice([0., .1, .5, .9])
    c['steps'] = [{'z': g.vec(m, 20.), 'form': lin.z_forms(g, m, c['layout']),
                   'R': g.choice([None, None, 'arg', 'scalar']), 'H': g.prob(3),
                   'p': g.prob(7)} for _ in range(g.int(1, 4))]
    c['Q'] = g.spd(n, 1e-2, 10.)
    c['H2'] = g.mat(m, n)
    return c


def check_corr(c, ctx):
    f = filters.A('kf', c).f
    n, m = c['n'], c['m']
    x, P = ref.col(c['x0']), c['P0']
    moved = False
    for i, s in enumerate(c['steps']):
        if s['p']:
            f.predict()
            x, P = ref.kf_predict(x, P, c['F'], c['Q'])
        R = {None: c['R'], 'arg': c['R'] * 2., 'scalar': np.eye(m) * 3.}[s['R']]
        H = c['H2'] if s['H'] else c['H']
        # a cross-covariance that keeps the joint covariance positive definite
        Lp = np.linalg.cholesky(P + 1e-9 * np.trace(P) * np.eye(n))
        Lr = np.linalg.cholesky(R)
        W = c['W']
        sv = np.linalg.norm(W, 2)
        if sv > .95:
            W = W * (.95 / sv)
        M = .9 * Lp.dot(W).dot(Lr.T)
        f.M = M.copy()
        kw = {}
        if s['R']:
            kw['R'] = R.copy() if s['R'] == 'arg' else 3.
        if s['H']:
            kw['H'] = H.copy()
        z = lin.zval(s['z'], s['form'])
        f.update_correlated(lin.make_z(s['z'], s['form']), **kw)
        C = P.dot(H.T) + M
        S = H.dot(P).dot(H.T) + H.dot(M) + M.T.dot(H.T) + R
        K = np.linalg.solve(S.T, C.T).T
        y = ref.col(z) - H.dot(x)
        if np.linalg.cond(S) > 1e7:
            return
        x, P0_ = x + K.dot(y), P
        P = ref.sym(P - K.dot(S).dot(K.T))
        sx = max(1., np.abs(x).max(), np.abs(z).max())
        sp = 1e-1 * np.abs(P0_).max()
        close(f.y, y, 'innovation', 1e-6, sx, flat=True)
        close(f.S, S, 'innovation covariance', 1e-6)
        close(f.K, K, 'gain', 1e-5, 1e-1)
        close(f.x, x, 'state after a correlated update', 1e-5, sx, flat=True)
        close(f.P, P, 'covariance after a correlated update', 1e-5, sp)
        same(f.x_post, f.x, 'recorded posterior')
        same(f.P_post, f.P, 'recorded posterior covariance')
        ll = ref.gauss_logpdf(y, S)
        require(abs(float(f.log_likelihood) - ll) <= 1e-4 * (1 + abs(ll)),
                'log-likelihood %r, expected %r', f.log_likelihood, ll)
        moved = moved or np.abs(M).max() > 0
        if np.linalg.eigvalsh(P).min() < 1e-6 * np.abs(P).max():
            break
    ctx.label('M' if moved else 'M=0', c['layout'])
    ctx.nt(moved)


SUBS = [Sub('sequential', gen_seq, check_seq, 900), Sub('stacked', gen_stack, check_stack, 700),
        Sub('correlated', gen_corr, check_corr, 900)]
