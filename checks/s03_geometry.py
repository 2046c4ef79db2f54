"""Covariance ellipses, NEES and Mahalanobis distance."""
import math
import warnings

import numpy as np
from filterpy import stats
from vlib.harness import Sub, Violation, close, require, raises

PROPERTY = 'S03'
RULE = ('Random covariances built from known axes and variances, vectors in every accepted form, '
        'sequences of estimates; ellipses against the construction and the quadratic form on their '
        'boundary, distances against a Cholesky solve, drawn ellipses and ellipsoids against the '
        'same geometry; mismatched inputs must be rejected. Non-trivial: a non-circular covariance, '
        'more than one dimension, or a rejected input.')

FORMS = ['vec', 'col', 'row', 'list', 'listcol', 'tuple', 'scalar']


def form(v, k):
    v = np.asarray(v, dtype=float).ravel()
    if k == 'scalar' and len(v) == 1:
        return float(v[0])
    if k == 'col':
        return v.reshape(-1, 1).copy()
    if k == 'row':
        return v.reshape(1, -1).copy()
    if k == 'list':
        return v.tolist()
    if k == 'tuple':
        return tuple(v.tolist())
    if k == 'listcol':
        return [[q] for q in v.tolist()]
    return v.copy()


# ------------------------------------------------------------- ellipse
def gen_ell(g):
    k = g.int(0, 4)
    a = g.logfloat(*g.choice([(1e-3, 1e3), (1e-8, 1e8)]))
    b = a * (1. if k == 0 else 0. if k == 1 else g.float(0., 1.))
    th = g.choice([0., 45., 90., 135., -30., 180.]) if g.bool() else g.float(-180., 180.)
    return {'a': a, 'b': b, 'th': th, 'd': g.choice([1, 2, 3, .5, 1.7, None]), 'list': g.bool(),
            'int': g.prob(2), 'ints': [g.int(1, 9), g.int(0, 9), g.int(-3, 3)]}


def cov_of(c):
    t = math.radians(c['th'])
    u, w = np.array([math.cos(t), math.sin(t)]), np.array([-math.sin(t), math.cos(t)])
    P = c['a'] * np.outer(u, u) + c['b'] * np.outer(w, w)
    return .5 * (P + P.T)


def check_ell(c, ctx):
    P = cov_of(c)
    if c['int']:
        p, q, r = c['ints']
        P = np.array([[p + abs(r), r], [r, q + abs(r)]])
    w, V = np.linalg.eigh(np.asarray(P, dtype=float))
    w = np.maximum(w, 0.)
    d = 1 if c['d'] is None else c['d']
    args = () if c['d'] is None else (c['d'],)
    r = stats.covariance_ellipse(P.tolist() if c['list'] else P, *args)
    require(len(r) == 3, 'covariance_ellipse returned %r', r)
    th, wd, ht = r
    sc = math.sqrt(w[1]) * d
    close(wd, sc, 'half-axis along the principal axis', 1e-9)
    close(ht, d * math.sqrt(w[0]), 'half-axis across the principal axis', 1e-7 if w[0] > 1e-6 * w[1] else 1e-6, sc)
    require(ht <= wd, 'half-axes %r < %r', wd, ht)
    close((wd / d) ** 2 * (ht / d) ** 2, np.linalg.det(np.asarray(P, float)), 'area', 1e-7, w[1] ** 2)
    # points of the drawn ellipse lie at d standard deviations
    e = np.array([math.cos(th), math.sin(th)])
    n = np.array([-math.sin(th), math.cos(th)])
    gap = (w[1] - w[0]) / w[1]
    rebuilt = (wd / d) ** 2 * np.outer(e, e) + (ht / d) ** 2 * np.outer(n, n)
    close(rebuilt, P, 'ellipse as a covariance', 1e-7)
    if gap > 1e-3:
        close(abs(e.dot(V[:, 1])), 1., 'orientation', 1e-7)
    for k in ('deviations',):
        q = stats.covariance_ellipse(P, **{k: 2.5})
        close(q[1:], [2.5 * wd / d, 2.5 * ht / d], 'half-axes at 2.5 deviations', 1e-7, 2.5 * sc)
    ctx.label('singular' if w[0] < 1e-9 * w[1] else 'circular' if gap < 1e-9 else 'general')
    ctx.nt(gap > 1e-3)


# ------------------------------------------------------------- distances
def gen_dist(g):
    n = g.int(1, 5)
    fs = FORMS if n == 1 else FORMS[:-1]
    return {'n': n, 'x': g.vec(n), 'm': g.vec(n), 'C': g.spd(n), 'fx': g.choice(fs), 'fm': g.choice(fs),
            'fc': g.choice(['mat', 'list', 'scalar']), 'int': g.prob(2), 'bad': g.int(1, 3),
            'e': g.int(-40, 40), 'd': [g.int(-8, 8) for _ in range(n)] if g.bool() else [0] * n}


def check_dist(c, ctx):
    n, C = c['n'], c['C']
    x, m = c['x'], c['m']
    if c['int']:
        x, m = np.round(x), np.round(m)
    y = x - m
    L = np.linalg.cholesky(C)
    v = np.linalg.solve(L, y)
    e = math.sqrt(v.dot(v))
    cc = C.tolist() if c['fc'] == 'list' else float(C[0, 0]) if c['fc'] == 'scalar' and n == 1 else C.copy()
    k = np.linalg.cond(C)
    sc = np.linalg.norm(y) / math.sqrt(np.linalg.eigvalsh(C).max())
    if k > 1e8:
        return
    r = stats.mahalanobis(form(x, c['fx']), form(m, c['fm']), cc)
    require(np.ndim(r) == 0, 'mahalanobis returned %r', r)
    close(r, e, 'mahalanobis distance', 1e-11 * k + 1e-10, sc)
    close(stats.mahalanobis(form(m, c['fx']), form(x, c['fm']), cc), r, 'symmetry', 1e-11 * k + 1e-10, sc)
    require(stats.mahalanobis(x, x, cc) == 0., 'distance of a point to itself is not zero')
    close(stats.mahalanobis(form(m + 3 * y, c['fx']), form(m, c['fm']), cc), 3 * e, 'homogeneity',
          1e-10 * k + 1e-9, sc + 1e-3 * np.abs(m).max() / math.sqrt(np.linalg.eigvalsh(C).min()))
    # other units, down to very small and up to very large ones
    u = 2. ** (c['e'] + np.array(c['d']))
    mixed = any(c['d'])
    if not mixed or k < 1e4:
        close(stats.mahalanobis(form(x * u, c['fx']), form(m * u, c['fm']), C * np.outer(u, u)), e,
              'mahalanobis distance in units of 2^%s' % np.log2(u), 1e-6 if mixed else 1e-11 * k + 1e-10, sc)
    # invalid pairs
    longer = np.append(x, np.ones(c['bad']))
    for a, b in ((longer, m), (m, longer)):
        raises(lambda: stats.mahalanobis(form(a, 'col' if c['fx'] == 'scalar' else c['fx']), form(b, c['fm']), cc),
               ValueError, 'mahalanobis of vectors of lengths %d and %d' % (len(a), len(b)))
    raises(lambda: stats.mahalanobis(np.ones((2, 2)), m, cc), ValueError, 'mahalanobis of a matrix')
    ctx.label('x ' + c['fx'], 'cov ' + c['fc'])
    ctx.nt(n > 1 and e > 0)


def gen_nees(g):
    n, k = g.int(1, 4), g.int(1, 6)
    return {'n': n, 'xs': [g.vec(n) for _ in range(k)], 'es': [g.vec(n) for _ in range(k)],
            'Ps': [g.spd(n) for _ in range(k)], 'col': g.bool(), 'fx': g.choice(['arr', 'list', 'listarr']),
            'fe': g.choice(['arr', 'list', 'listarr']), 'fp': g.choice(['arr', 'list', 'listarr'])}


def seq(vs, f):
    if f == 'arr':
        return np.array(vs)
    if f == 'list':
        return [v.tolist() for v in vs]
    return [v.copy() for v in vs]


def check_nees(c, ctx):
    n = c['n']
    xs, es = c['xs'], c['es']
    if c['col']:
        xs, es = [v.reshape(-1, 1) for v in xs], [v.reshape(-1, 1) for v in es]
    r = stats.NEES(seq(xs, c['fx']), seq(es, c['fe']), seq(c['Ps'], c['fp']))
    require(len(r) == len(xs), 'NEES returned %d values for %d estimates', len(r), len(xs))
    tot = []
    for a, b, P, q in zip(c['xs'], c['es'], c['Ps'], r):
        k = np.linalg.cond(P)
        y = a - b
        e = y.dot(np.linalg.solve(P, y))
        tot.append(e)
        require(np.size(q) == 1, 'NEES of one estimate is %r', q)
        close(q, e, 'NEES', 1e-11 * k + 1e-10, y.dot(y) / np.linalg.eigvalsh(P).max(), shape=False)
        if k < 1e6:
            close(math.sqrt(max(0., float(np.ravel(q)[0]))), stats.mahalanobis(a, b, P), 'NEES against mahalanobis', 1e-6,
                  max(1e-3, math.sqrt(abs(e))))
    close(np.mean(r), np.mean(tot), 'mean of NEES', 1e-6)
    ctx.label(c['fx'], 'column' if c['col'] else 'flat')
    ctx.nt(n > 1 and len(xs) > 1)


# ------------------------------------------------------------- drawings
def gen_plot(g):
    c = gen_ell(g)
    c.update(mean=g.floats(2, 5.), how=g.choice(['default', 'std', 'stds', 'variance', 'variances', 'interval',
                                                 'intervals', 'ellipse', 'old', 'bad']),
             s=g.float(.2, 3.), k=g.float(.05, .99), axes=g.bool(), center=g.bool())
    c['int'] = False
    if c['b'] == 0.:
        c['b'] = c['a'] * .25
    return c


Z = {.5: .6744897501960817, .6827: None}


def check_plot(c, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.patches import Ellipse
    from scipy.special import erfinv
    P = cov_of(c)
    mean = c['mean']
    how = c['how']
    fig = plt.figure()
    try:
        s, k = c['s'], c['k']
        kw = {'std': {'std': s}, 'stds': {'std': [1., s]}, 'variance': {'variance': s ** 2},
              'variances': {'variance': [s ** 2, 4.]}, 'interval': {'interval': k},
              'intervals': {'interval': [k, .5]}}.get(how, {})
        q = math.sqrt(2) * float(erfinv(k))
        want = {'std': [s], 'stds': [1., s], 'variance': [s], 'variances': [s, 2.], 'interval': [q],
                'intervals': [q, Z[.5]]}.get(how, [1.])
        ell = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if how == 'bad':
                ell = stats.covariance_ellipse(P)
                raises(lambda: stats.plot_covariance(mean, P, ellipse=ell), ValueError,
                       'plot_covariance with cov and ellipse')
                raises(lambda: stats.plot_covariance(mean), ValueError,
                       'plot_covariance without cov and ellipse')
                raises(lambda: stats.plot_covariance(mean, P, variance=None), ValueError,
                       'plot_covariance without any size')
                ctx.label('rejected')
                ctx.nt()
                return
            if how == 'ellipse':
                ell = stats.covariance_ellipse(P)
                stats.plot_covariance(mean, ellipse=ell)
            elif how == 'old':
                stats.plot_covariance_ellipse(mean, P, std=s, show_semiaxis=c['axes'])
                want = [s]
            else:
                stats.plot_covariance(mean, P, show_semiaxis=c['axes'], show_center=c['center'], **kw)
        pats = [p for p in plt.gca().patches if isinstance(p, Ellipse)]
        require(len(pats) == len(want), '%d ellipses drawn, expected %d', len(pats), len(want))
        got = sorted((float(p.width), p) for p in pats)
        for (wd, p), sd in zip(sorted(got, key=lambda t: t[0]), sorted(want)):
            close(p.center, mean, 'centre', 1e-9, 1.)
            t = math.radians(p.angle)
            e, n = np.array([math.cos(t), math.sin(t)]), np.array([-math.sin(t), math.cos(t)])
            R = (p.width / 2.) ** 2 * np.outer(e, e) + (p.height / 2.) ** 2 * np.outer(n, n)
            close(R, sd ** 2 * P, 'drawn ellipse at %.4g standard deviations' % sd, 1e-6)
        ctx.label(how)
        ctx.nt()
    finally:
        plt.close(fig)


def gen_3d(g):
    return {'C': g.spd(3, .1, 10.), 'm': g.floats(3, 5.), 'std': g.choice([1., 2., .5]), 'N': g.choice([8, 13]),
            'f': g.choice(['list', 'vec', 'col', 'row']), 'bad': g.prob(2), 'ax': g.bool()}


def check_3d(c, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import Axes3D
    m = form(c['m'], c['f'])
    if c['bad']:
        raises(lambda: stats.plot_3d_covariance(c['m'][:2], c['C']), ValueError, 'a mean of length 2')
        raises(lambda: stats.plot_3d_covariance(m, np.eye(2)), ValueError, 'a 2x2 covariance')
        raises(lambda: stats.plot_3d_covariance(m, -c['C']), ValueError, 'a negative covariance')
        plt.close('all')
        ctx.label('rejected')
        return
    got = []
    real = Axes3D.plot_surface

    def spy(self, X, Y, Zs, *a, **k):
        got.append((np.array(X), np.array(Y), np.array(Zs)))
        return real(self, X, Y, Zs, *a, **k)
    fig = plt.figure()
    try:
        Axes3D.plot_surface = spy
        ax = fig.add_subplot(111, projection='3d') if c['ax'] else None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = stats.plot_3d_covariance(m, c['C'], std=c['std'], N=c['N'], ax=ax)
        if c['ax']:
            require(r is ax, 'drawn on, or returned, other axes than those given')
        require(len(got) == 1, '%d surfaces drawn', len(got))
        pts = np.stack([q.ravel() for q in got[0]]) - c['m'].reshape(3, 1)
        d = np.sqrt((pts * np.linalg.solve(c['C'], pts)).sum(axis=0))
        require(np.abs(d - c['std']).max() <= 1e-6 * c['std'], 'points of the ellipsoid lie between %r and %r '
                'standard deviations, not %r', d.min(), d.max(), c['std'])
        # the surface reaches every principal axis: it is the whole ellipsoid
        w, V = np.linalg.eigh(c['C'])
        ext = np.abs(V.T.dot(pts)).max(axis=1)
        require(np.all(ext >= .8 * c['std'] * np.sqrt(w)), 'the ellipsoid is not covered: %r of %r', ext,
                c['std'] * np.sqrt(w))
        big = c['std'] * math.sqrt(w[2])
        for lim, mm, nm in zip((r.get_xlim(), r.get_ylim(), r.get_zlim()), c['m'], 'xyz'):
            require(lim[0] <= mm - big * .99 and lim[1] >= mm + big * .99, '%s limits %r hide the ellipsoid',
                    nm, lim)
        ctx.nt()
        ctx.label(c['f'])
    finally:
        Axes3D.plot_surface = real
        plt.close('all')


SUBS = [Sub('ellipse', gen_ell, check_ell, quick=800),
        Sub('mahalanobis', gen_dist, check_dist, quick=800),
        Sub('nees', gen_nees, check_nees, quick=500),
        Sub('plot', gen_plot, check_plot, quick=80, thorough=500),
        Sub('plot3d', gen_3d, check_3d, quick=20, thorough=150)]
