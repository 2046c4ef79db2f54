"""Gaussian algebra, scalar densities and interval probabilities."""
import math
import random
import warnings

import numpy as np
from filterpy import stats
from vlib.harness import Sub, close, require, raises
from vlib import ref

PROPERTY = 'S01'
RULE = ('Random means and (co)variances (scalars, ints, lists, arrays, columns), points and '
        'intervals; products are compared with the information form, with the pointwise product of '
        'densities and with the laws of commutativity and associativity; densities and interval '
        'probabilities with math.erf and with each other; drawn curves with the same oracle; '
        'Student-t draws with a fixed seed against the distribution function. Non-trivial: the two '
        'Gaussians differ, or the interval / array has more than one distinct point.')


def npdf(x, m, v):
    return math.exp(-.5 * (x - m) ** 2 / v) / math.sqrt(2 * math.pi * v)


def ncdf(x, m, v):
    return .5 * math.erfc(-(x - m) / math.sqrt(2 * v))


# ------------------------------------------------------------- scalar products and sums
def gen_scalar(g):
    i = g.prob(3)
    c = {'int': i, 'm': [], 'v': []}
    w = g.choice([(1e-4, 1e4), (1e-10, 1e10)])
    for _ in range(3):
        if i:
            c['m'].append(g.int(-6, 6))
            c['v'].append(g.int(1, 9))
        else:
            c['m'].append(g.float(-8, 8))
            c['v'].append(g.logfloat(*w))
    c['t'] = g.float(-3, 3)
    return c


def check_scalar(c, ctx):
    m, v = c['m'], c['v']

    def prod(a, b):
        w = 1. / a[1] + 1. / b[1]
        return (a[0] / a[1] + b[0] / b[1]) / w, 1. / w

    g = list(zip(m, v))
    sc = max(1e-3, max(abs(q) for q in m))
    for name, f in (('mul', stats.mul), ('mul_pdf', stats.mul_pdf)):
        r = f(m[0], v[0], m[1], v[1])
        require(isinstance(r, tuple) and len(r) == (2 if name == 'mul' else 3),
                '%s returned %r', name, r)
        e = prod(g[0], g[1])
        close(r[0], e[0], name + ' mean', 1e-10, sc)
        close(r[1], e[1], name + ' variance', 1e-12)
        q = f(m[1], v[1], m[0], v[0])
        for a, b, w in zip(r, q, ('mean', 'variance', 'scale')):
            close(a, b, '%s is not commutative: %s' % (name, w), 1e-10, sc if w == 'mean' else 0)
        # associativity
        l = f(*(tuple(r[:2]) + g[2]))[:2]
        k = f(*(g[0] + tuple(f(*(g[1] + g[2]))[:2])))[:2]
        close(l[0], k[0], name + ' is not associative: mean', 1e-9, sc)
        close(l[1], k[1], name + ' is not associative: variance', 1e-11)
    mean, var, s = stats.mul_pdf(m[0], v[0], m[1], v[1])
    close(s, npdf(m[0], m[1], v[0] + v[1]), 'mul_pdf scale', 1e-10)
    # pointwise product of densities, compared in logs
    x = e[0] + c['t'] * math.sqrt(e[1])
    lp = sum(-.5 * (x - a) ** 2 / b - .5 * math.log(2 * math.pi * b) for a, b in g[:2])
    if s > 1e-250:
        lq = math.log(s) - .5 * (x - mean) ** 2 / var - .5 * math.log(2 * math.pi * var)
        # the exponents cancel: their size bounds the rounding error
        big = max([1.] + [(abs(x) + abs(a)) ** 2 / b for a, b in g[:2]])
        require(abs(lp - lq) <= 1e-8 * big, 'scale * density of product is not the product of '
                'densities at %r: log %r against %r', x, lq, lp)
        ctx.label('pointwise')
    r = stats.add(m[0], v[0], m[1], v[1])
    close(r, [m[0] + m[1], v[0] + v[1]], 'add', 1e-13)
    close(stats.add(m[1], v[1], m[0], v[0]), r, 'add is not commutative', 1e-13)
    l = stats.add(*(tuple(r) + g[2]))
    k = stats.add(*(g[0] + tuple(stats.add(*(g[1] + g[2])))))
    close(l[0], k[0], 'add is not associative: mean', 1e-12, sc)
    close(l[1], k[1], 'add is not associative: variance', 1e-12)
    ctx.nt(m[0] != m[1] and v[0] != v[1])


# ------------------------------------------------------------- several dimensions
def gen_multi(g):
    n = g.int(1, 5)
    return {'n': n, 'm': [g.vec(n) for _ in range(3)], 'C': [g.spd(n) for _ in range(3)],
            'form': g.choice(['vec', 'col', 'list']), 'psd': g.prob(2), 'p': g.psd(n),
            'units': [g.int(-16, 16) for _ in range(n)] if g.prob(3) else [g.int(-40, 40)] * n if g.prob(3) else None,
            'scalar': g.prob(2)}


def check_multi(c, ctx):
    n, form = c['n'], c['form']
    C = [q.copy() for q in c['C']]
    if c['psd']:
        C[0] = c['p'].copy()          # a singular covariance: part of the state is known exactly
        ctx.label('singular')
    m = c['m']
    u = np.ones(n)
    if c['units']:
        # all in another unit, or uncorrelated components in units of their own: exact in powers of two
        u = 2. ** np.array(c['units'])
        if len(set(c['units'])) > 1:
            C = [np.diag(np.diag(q)) for q in C]
        ctx.label('units')
    scalar = c['scalar'] and n == 1

    def mform(v):
        v = np.asarray(v).ravel()
        if scalar:
            return float(v[0])
        return v.copy() if form == 'vec' else v.reshape(n, 1).copy() if form == 'col' else v.tolist()

    def cform(p):
        return p.tolist() if form == 'list' else p.copy()

    def f(a, b):
        uu = np.outer(u, u)
        r = stats.multivariate_multiply(mform(a[0] * u), cform(a[1] * uu), mform(b[0] * u), cform(b[1] * uu))
        require(len(r) == 2, 'multivariate_multiply returned %r', r)
        if not scalar:
            close(np.zeros(np.shape(r[0])), np.zeros((n, 1) if form == 'col' else (n,)),
                  'mean of product')
        require(np.shape(r[1]) == (n, n), 'covariance of product has shape %s', np.shape(r[1]))
        return np.asarray(r[0]).ravel() / u, np.asarray(r[1]) / uu

    g = list(zip(m, C))
    sc = max(1., max(np.abs(q).max() for q in m))
    k = max(np.linalg.cond(g[0][1] + g[1][1]), np.linalg.cond(C[1] + C[2]), np.linalg.cond(C[2] + C[0]))
    if k > 1e6:
        return
    tol = 1e-13 * k * 50 + 1e-11
    r = f(g[0], g[1])
    S = C[0] + C[1]
    # solved rather than inverted
    e = np.linalg.solve(S.T, C[1].T).T.dot(m[0]) + np.linalg.solve(S.T, C[0].T).T.dot(m[1])
    E = C[0].dot(np.linalg.solve(S, C[1]))
    close(r[0], e, 'mean of product', tol, sc)
    close(r[1], E, 'covariance of product', tol, min(np.abs(C[0]).max(), np.abs(C[1]).max()))
    if not c['psd']:
        W = np.linalg.inv(C[0]) + np.linalg.inv(C[1])
        close(W.dot(r[1]), np.eye(n), 'covariance against the sum of information', 1e-6)
        close(W.dot(r[0]), np.linalg.solve(C[0], m[0]) + np.linalg.solve(C[1], m[1]),
              'mean against the sum of information', 1e-6,
              sc * max(np.abs(np.linalg.inv(q)).max() for q in C[:2]))
    q = f(g[1], g[0])
    close(q[0], r[0], 'multivariate_multiply is not commutative: mean', tol, sc)
    close(q[1], r[1], 'multivariate_multiply is not commutative: covariance', tol,
          min(np.abs(C[0]).max(), np.abs(C[1]).max()))
    l, kk = f(r, g[2]), f(g[0], f(g[1], g[2]))
    big = 1e-7
    close(l[0], kk[0], 'multivariate_multiply is not associative: mean', big, sc)
    close(l[1], kk[1], 'multivariate_multiply is not associative: covariance', big,
          max(np.abs(q).max() for q in C))
    if n == 1:
        s = stats.mul(float(m[0][0]), max(float(C[0][0, 0]), 1e-300), float(m[1][0]), float(C[1][0, 0]))
        close(r[0][0], s[0], 'one-dimensional product against mul', 1e-9, sc)
        close(r[1][0, 0], s[1], 'one-dimensional product against mul', 1e-9)
    ctx.label(form)
    ctx.nt(n > 1 and not np.array_equal(m[0], m[1]))


# ------------------------------------------------------------- densities and probabilities
def gen_pdf(g):
    i = g.prob(2)
    n = g.int(1, 6)
    return {'m': g.int(-5, 5) if i else g.float(-8, 8),
            'v': g.int(1, 9) if i else g.logfloat(*g.choice([(1e-3, 1e3), (1e-10, 1e10)])),
            'x': g.floats(n, 4.), 'int': i, 'form': g.choice(['list', 'vec', 'tuple']),
            'ab': g.floats(2, g.choice([5., 5., 40.]))}


def check_pdf(c, ctx):
    m, v = c['m'], c['v']
    sd = math.sqrt(v)
    x = m + c['x'] * sd
    if c['int']:
        x = np.round(x).astype(int)
    for q in x.tolist():
        r = stats.gaussian(q, m, v)
        close(r, npdf(q, m, v), 'gaussian(%r, %r, %r)' % (q, m, v), 1e-11)
        close(stats.gaussian(q, m, v, normed=False), npdf(q, m, v), 'gaussian not normed', 1e-11)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            close(stats.multivariate_gaussian(q, m, v), npdf(q, m, v), 'multivariate_gaussian', 1e-9)
        close(math.exp(stats.logpdf(q, m, v)), npdf(q, m, v), 'logpdf', 1e-9)
    xs = x.tolist() if c['form'] == 'list' else tuple(x.tolist()) if c['form'] == 'tuple' else x.copy()
    p = np.array([npdf(q, m, v) for q in x.tolist()])
    close(stats.gaussian(xs, m, v, normed=False), p, 'gaussian of an array', 1e-11)
    close(stats.gaussian(xs, m, v), p / math.fsum(p), 'normalised gaussian of an array', 1e-10)
    close(np.sum(stats.gaussian(xs, m, v)), 1., 'sum of a normalised array', 1e-10)
    a, b = m + c['ab'] * sd
    e = abs(ncdf(b, m, v) - ncdf(a, m, v))
    for lo, hi in ((a, b), (b, a)):
        close(stats.norm_cdf((lo, hi), m, v), e, 'norm_cdf', 1e-10, 1e-3)
        close(stats.norm_cdf([lo, hi], m, var=v), e, 'norm_cdf', 1e-10, 1e-3)
        close(stats.norm_cdf((lo, hi), m, std=sd), e, 'norm_cdf with std', 1e-10, 1e-3)
        close(stats.norm_cdf((lo, hi), m, 17.5, sd), e, 'norm_cdf with std and var', 1e-10, 1e-3)
        require(0. <= stats.norm_cdf((lo, hi), m, v) <= 1., 'norm_cdf of %r is %r', (lo, hi),
                stats.norm_cdf((lo, hi), m, v))
    close(stats.norm_cdf((a, b), m), abs(ncdf(b, m, 1.) - ncdf(a, m, 1.)),
          'norm_cdf with the default variance', 1e-10, 1e-3)
    # additivity, and agreement with the density by Gauss-Legendre quadrature
    mid = .5 * (a + b)
    close(stats.norm_cdf((a, mid), m, v) + stats.norm_cdf((mid, b), m, v), e, 'additivity', 1e-10, 1e-3)
    t, w = np.polynomial.legendre.leggauss(40)
    d = abs(b - a)
    q = .5 * d * np.dot(w, stats.gaussian(mid + .5 * d * t, m, v, normed=False))
    if d <= 10. * sd:
        close(q, e, 'integral of gaussian against norm_cdf', 1e-7, 1e-2)
    ctx.label(c['form'])
    ctx.nt(len(set(x.tolist())) > 1 and a != b)


# ------------------------------------------------------------- drawn curves
def gen_plot(g):
    return {'m': g.float(-5, 5), 'v': g.logfloat(*g.choice([(1e-2, 1e2), (1e-6, 1e6)])), 'kind': g.choice(['pdf', 'std', 'cdf', 'old',
            'discrete', 'bad']), 'lim': g.choice([None, [-1., 2.5], [-20., 20.]]), 'ax': g.bool(),
            'label': g.choice([None, 'abc']), 'ys': g.floats(g.int(1, 8), 1.), 'xs': g.bool(),
            'mean_line': g.bool(), 'ylim': g.choice([None, [0., .7]]), 'xl': g.choice([None, 'u'])}


def check_plot(c, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    m, v, k = c['m'], c['v'], c['kind']
    fig = plt.figure()
    try:
        axes = fig.subplots(1, 2)
        ax = axes[0] if c['ax'] else None
        kw = {'ax': ax, 'label': c['label'], 'xlabel': c['xl'], 'ylabel': c['xl']}
        lim = c['lim']
        if k == 'bad':
            raises(lambda: stats.plot_gaussian_pdf(m, v, math.sqrt(v)), ValueError,
                   'plot_gaussian_pdf with variance and std')
            ctx.label('rejected')
            return
        if k == 'discrete':
            y = np.abs(c['ys'])
            x = np.arange(len(y)) * 2. + 1
            r = stats.plot_discrete_cdf(x if c['xs'] else None, y, **kw)
            px, py = x if c['xs'] else np.arange(len(y)), np.array([math.fsum(y[:i + 1])
                                                                    for i in range(len(y))])
        else:
            sd = math.sqrt(v)
            if lim is not None:
                kw['xlim'] = lim
            if c['ylim'] is not None:
                kw['ylim'] = c['ylim']
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if k == 'pdf':
                    r = stats.plot_gaussian_pdf(m, v, mean_line=c['mean_line'], **kw)
                elif k == 'std':
                    r = stats.plot_gaussian_pdf(m, variance=None, std=sd, **kw)
                elif k == 'old':
                    r = stats.plot_gaussian(m, v, mean_line=c['mean_line'], **kw)
                else:
                    r = stats.plot_gaussian_cdf(m, v, **kw)
        want = axes[0] if c['ax'] else axes[1]      # the current axes are the last made
        require(r is want, '%s drew on, or returned, the wrong axes', k)
        require(len(r.lines) >= 1, '%s drew no line', k)
        ln = r.lines[0]
        x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if k == 'discrete':
            close(x, px, 'abscissae', 1e-12)
            close(y, py, 'cumulative sums', 1e-12, 1.)
        else:
            require(len(x) > 50, '%s drew %d points', k, len(x))
            e = [(ncdf if k == 'cdf' else npdf)(q, m, v) for q in x.tolist()]
            close(y, e, 'curve of ' + k, 1e-9)
            lo, hi = lim if lim is not None else (m - 3.0902323061678132 * sd, m + 3.0902323061678132 * sd)
            close(r.get_xlim(), [lo, hi], 'x limits', 1e-6, hi - lo)
            require(abs(x[0] - lo) <= .01 * (hi - lo) and abs(x[-1] - hi) <= .01 * (hi - lo)
                    and np.all(np.diff(x) > 0), 'abscissae run from %r to %r', x[0], x[-1])
            if c['ylim'] is not None:
                close(r.get_ylim(), c['ylim'], 'y limits', 1e-9)
        if c['label']:
            require(ln.get_label() == c['label'], 'label %r', ln.get_label())
        if c['xl']:
            require(r.get_xlabel() == 'u' and r.get_ylabel() == 'u', 'axis labels %r %r',
                    r.get_xlabel(), r.get_ylabel())
        ctx.label(k)
        ctx.nt()
    finally:
        plt.close(fig)


# ------------------------------------------------------------- Student's t
def gen_t(g):
    return {'df': g.choice([1, 2, 3, 5, 10, 2.5]), 'mu': g.choice([0, 1.5, -4.]),
            'std': g.choice([1, .5, 3.]), 'seed': g.int(0, 10 ** 6)}


def check_t(c, ctx):
    from scipy.stats import t as T
    st = random.getstate()
    np_st = np.random.get_state()
    try:
        random.seed(c['seed'])
        np.random.seed(c['seed'])
        n = 4000
        x = np.sort([stats.rand_student_t(c['df'], c['mu'], c['std']) for _ in range(n)])
    finally:
        random.setstate(st)
        np.random.set_state(np_st)
    F = T.cdf((x - c['mu']) / c['std'], c['df'])
    d = max(np.abs(F - np.arange(n) / n).max(), np.abs(F - np.arange(1, n + 1) / n).max())
    # P(D > d) <= 2 exp(-2 n d^2): 0.055 has probability below 1e-10
    require(d < .055, 'draws of rand_student_t(%r, %r, %r) do not follow the distribution: largest '
            'difference of the distribution functions %.3f in %d draws', c['df'], c['mu'], c['std'],
            d, n)
    ctx.label('df %s' % c['df'])
    ctx.nt()


SUBS = [Sub('scalar', gen_scalar, check_scalar, quick=1000),
        Sub('multi', gen_multi, check_multi, quick=1000),
        Sub('pdf', gen_pdf, check_pdf, quick=500),
        Sub('plot', gen_plot, check_plot, quick=60, thorough=400),
        Sub('student_t', gen_t, check_t, quick=25, thorough=300)]
