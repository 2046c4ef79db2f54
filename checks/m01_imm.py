"""Interacting multiple models: mixing, mode probabilities and combination by Bayes' rule."""
import sys
import numpy as np
from filterpy.kalman import IMMEstimator, KalmanFilter, FadingKalmanFilter
from vlib import lin, ref
from vlib.harness import Sub, close, require

PROPERTY = 'M01'
RULE = ('Random banks of 2-4 linear filters with their own models, transition matrices (including '
        'absorbing, unreachable and swapping modes), prior probabilities (including zeros) and '
        'alternating histories with missing measurements and controls, against an independent '
        'implementation in the log domain; plus relabelling of the bank and banks of equal filters; '
        'non-trivial: at least two measurements and modes with different models.')


def probs(g, N, zeros=True):
    v = np.array([0. if zeros and g.prob(1) else g.float(.05, 1.) for _ in range(N)])
    if v.sum() == 0:
        v[0] = 1.
    return v / v.sum()


def bank(g, equal=False):
    n, m = g.dim(1, 3, 6), g.dim(1, 2, 5)
    N = 6 if g.prob(1) else g.int(2, 4)
    far = g.choice([4.] * 7 + [3e3])      # now and then models that disagree widely
    c = {'n': n, 'm': m, 'N': N, 'layout': g.choice(['1d', 'col']), 'models': [],
         'u_dim': g.choice([0, 0, 1])}
    for i in range(N):
        if i and equal:
            c['models'].append(c['models'][0])
            continue
        c['models'].append({'kind': g.choice(['kf', 'kf', 'fkf']), 'x': g.vec(n, far),
                            'P': g.spd(n, 1e-1, 10.), 'F': g.trans(n), 'Q': g.spd(n, 1e-2, 5.),
                            'H': g.mat(m, n), 'R': g.spd(m, .1, 10.), 'B': g.mat(n, 1),
                            'alpha': g.choice([1., 1.1])})
    c['ops'] = [[g.vec(1, 3.) if c['u_dim'] and g.bool() else None,
                 None if g.prob(1) else g.vec(m, g.choice([3., 3., 10., 100.]))]
                for _ in range(g.int(1, 7))]
    if far > 4.:        # there, only what mixing and prediction do is well conditioned
        c['ops'] = [[u, None] for u, _ in c['ops'][:3]]
    return c


def gen(g, equal=False):
    c = bank(g, equal)
    N = c['N']
    c['mu'] = probs(g, N)
    c['scale'] = g.choice([1., 1., 3., .25])
    k = g.choice(['dense', 'dense', 'identity', 'perm', 'sparse'])
    if k == 'dense':
        M = np.array([probs(g, N, False) for _ in range(N)])
    elif k == 'identity':
        M = np.eye(N)
    elif k == 'perm':
        M = np.eye(N)[g.perm(N)]
    else:
        M = np.array([probs(g, N) for _ in range(N)])
    c['M'], c['Mkind'] = M, k
    c['perm'] = g.perm(N)
    return c


def make_filter(c, q):
    n, m = c['n'], c['m']
    if q['kind'] == 'fkf':
        f = FadingKalmanFilter(q['alpha'], n, m, c['u_dim'])
    else:
        f = KalmanFilter(n, m, c['u_dim'])
    f.x = lin.shape_x(q['x'], c['layout'])
    f.P, f.F, f.Q, f.H, f.R = q['P'].copy(), q['F'], q['Q'], q['H'], q['R']
    if c['u_dim']:
        f.B = q['B']
    return f


def like(y, S):
    """the likelihood a filter documents: the density, never zero"""
    l = np.exp(ref.gauss_logpdf(y, S))
    return l if l > 0 else sys.float_info.min


def mix(xs, Ps, w):
    x = sum(a * b for a, b in zip(w, xs))
    P = sum(a * (p + (b - x).dot((b - x).T)) for a, b, p in zip(w, xs, Ps))
    return x, P


def check(c, ctx):
    N, lay = c['N'], c['layout']
    fs = [make_filter(c, q) for q in c['models']]
    imm = IMMEstimator(fs, c['mu'] * c['scale'], c['M'].copy())
    xs = [ref.col(q['x']) for q in c['models']]
    Ps = [q['P'] for q in c['models']]
    mu = c['mu'].copy()
    big = [1., 0.]      # sizes met so far: what rounding is relative to

    def agree(when):
        x, P = mix(xs, Ps, mu)
        s = big[0] = max(big[0], max(np.abs(v).max() for v in xs))
        ps = big[1] = max(big[1], max(np.abs(p).max() for p in Ps) + s ** 2)
        close(imm.mu, mu, 'mode probabilities ' + when, 1e-7, 1.)
        require(np.all(np.asarray(imm.mu) >= 0) and abs(np.sum(imm.mu) - 1.) < 1e-9,
                'mode probabilities %s are %r', when, imm.mu)
        for i, f in enumerate(fs):
            close(f.x, xs[i], 'state of filter %d %s' % (i, when), 1e-7, s, flat=True)
            close(f.P, Ps[i], 'covariance of filter %d %s' % (i, when), 1e-7, ps)
        close(imm.x, x, 'combined state ' + when, 1e-7, s, flat=True)
        close(imm.P, P, 'combined covariance ' + when, 1e-7, ps)
        require(np.shape(imm.x) == np.shape(fs[0].x), 'combined state has shape %s', np.shape(imm.x))
        return x, P, s, ps

    agree('at the start')
    nz = 0
    for u, z in c['ops']:
        # mixing
        cbar = mu.dot(c['M'])
        w = [mu * c['M'][:, j] / cbar[j] if cbar[j] > 0 else np.eye(N)[j] for j in range(N)]
        mixed = [mix(xs, Ps, wj) for wj in w]
        for j, q in enumerate(c['models']):
            xs[j], Ps[j] = ref.kf_predict(mixed[j][0], mixed[j][1], q['F'], q['Q'],
                                          None if u is None else q['B'].dot(ref.col(u)),
                                          q['alpha'] if q['kind'] == 'fkf' else 1.)
        if u is None:
            imm.predict()
        else:
            imm.predict(lin.shape_x(u, lay))
        x, P, s, ps = agree('after a prediction')
        close(imm.x_prior, x, 'recorded prior', 1e-7, s, flat=True)
        close(imm.P_prior, P, 'recorded prior covariance', 1e-7, ps)
        imm.update(None if z is None else lin.shape_x(z, lay))
        if z is not None:
            L = np.zeros(N)
            for j, q in enumerate(c['models']):
                xs[j], Ps[j], y, S, _ = ref.kf_update(xs[j], Ps[j], z, q['H'], q['R'])
                L[j] = like(y, S)
            if not np.any(cbar * L > 1e-290):
                ctx.label('ended: all likelihoods underflow')
                return
            mu = cbar * L
            mu = mu / mu.sum()
            nz += 1
        if np.any((mu > 0) & (mu < 1e-280)):
            ctx.label('ended: probability at the edge of underflow')
            return
        x, P, s, ps = agree('after an update')
        close(imm.x_post, x, 'recorded posterior', 1e-7, s, flat=True)
        close(imm.P_post, P, 'recorded posterior covariance', 1e-7, ps)
        # posterior covariances combine differences of nearly singular terms
        if s > 1e6:
            return
    ctx.label(c['Mkind'], lay, 'zero probability' if np.any(c['mu'] == 0) else '')
    ctx.nt(nz >= 2)


def check_equal(c, ctx):
    """a bank of identical filters is one filter"""
    one = make_filter(c, c['models'][0])
    imm = IMMEstimator([make_filter(c, q) for q in c['models']], c['mu'], c['M'])
    for u, z in c['ops']:
        uu = None if u is None else lin.shape_x(u, c['layout'])
        imm.predict(uu)
        one.predict(uu)
        zz = None if z is None else lin.shape_x(z, c['layout'])
        imm.update(zz)
        one.update(zz)
        if one.likelihood <= 1e-250:
            return
        s = max(1., np.abs(one.x).max())
        close(imm.x, one.x, 'state of a bank of equal filters', 1e-9, s, flat=True)
        close(imm.P, one.P, 'covariance of a bank of equal filters', 1e-8, s ** 2 * 1e-3)
        ctx.nt(z is not None)
    mu = c['mu']
    for u, z in c['ops']:
        mu = mu if z is None else mu.dot(c['M'])
    close(imm.mu, mu, 'probabilities of equal filters follow the transition matrix', 1e-9, 1.)


def check_relabel(c, ctx):
    p = c['perm']
    a = IMMEstimator([make_filter(c, q) for q in c['models']], c['mu'], c['M'])
    b = IMMEstimator([make_filter(c, c['models'][i]) for i in p], c['mu'][p], c['M'][np.ix_(p, p)])
    s = 1.
    for u, z in c['ops']:
        for e in (a, b):
            e.predict(None if u is None else lin.shape_x(u, c['layout']))
            e.update(None if z is None else lin.shape_x(z, c['layout']))
        if np.any(a.likelihood < 1e-250) or np.any((a.mu > 0) & (a.mu < 1e-250)):
            return
        s = max(s, max(np.abs(f.x_prior).max() for f in a.filters), max(np.abs(f.x).max() for f in a.filters))
        if s > 1e6:
            return
        close(b.mu, a.mu[p], 'probabilities of the relabelled bank', 1e-8, 1.)
        close(b.x, a.x, 'state of the relabelled bank', 1e-8, s)
        close(b.P, a.P, 'covariance of the relabelled bank', 1e-8, s ** 2)
        ctx.nt(z is not None and p != sorted(p))


SUBS = [Sub('histories', gen, check, 1500),
        Sub('equal', lambda g: gen(g, True), check_equal, 300),
        Sub('relabel', gen, check_relabel, 400)]
