"""Estimates depend on the numbers handed over, not on how they are stored."""
import copy
import warnings
import numpy as np
from filterpy import common, gh, kalman, leastsq, memory, monte_carlo, stats
from filterpy.discrete_bayes import predict as db_predict, update as db_update
from vlib import filters, lin
from vlib.harness import Sub, Violation, close, require

PROPERTY = 'E02'
RULE = ('Models with integer or real entries run twice: once on contiguous float arrays, once with '
        'every array stored another way (integer types, column-major, strided, reversed or offset '
        'views, read-only, big-endian; numbers as int, numpy scalars or 0-d arrays); all filters, '
        'banks, smoothers, batch runs and functions; non-trivial: at least two arrays stored '
        'differently, and for filters two measurements.')

MODES = ['int', 'int32', 'fortran', 'strided', 'reversed', 'offset', 'readonly', 'bigendian',
         'roint', 'transposed']
NUMBERS = ['int', 'npint', 'npfloat', '0d', 'plain']


def whole(v):
    return bool(np.all(np.asarray(v) == np.round(v)))


def store(v, mode):
    """the same values, stored another way"""
    v = np.array(v, dtype=float)
    if v.size == 0:
        return v
    if mode in ('int', 'int32', 'roint') and not whole(v):
        mode = 'readonly' if mode == 'roint' else 'offset'
    if mode == 'int':
        return v.astype(np.int64)
    if mode == 'int32':
        return v.astype(np.int32)
    if mode == 'bigendian':
        return v.astype('>f8')
    if mode == 'fortran':
        return np.asfortranarray(v)
    if mode == 'transposed':
        return np.ascontiguousarray(v.T).T
    if mode in ('readonly', 'roint'):
        v = v.astype(np.int64) if mode == 'roint' else v
        v.flags.writeable = False
        return v
    if mode == 'strided':
        big = np.full([2 * s + 1 for s in v.shape], 7.7)
        w = big[tuple(slice(1, None, 2) for _ in v.shape)]
    elif mode == 'offset':
        big = np.full([s + 3 for s in v.shape], -3.3)
        w = big[tuple(slice(2, 2 + s) for s in v.shape)]
    else:
        w = np.empty(v.shape)[tuple(slice(None, None, -1) for _ in v.shape)]
    w[...] = v
    return w


def number(v, mode):
    v = float(v)
    if mode == 'int' and v == int(v):
        return int(v)
    if mode == 'npint' and v == int(v):
        return np.int64(v)
    return {'0d': np.array(v), 'plain': v}.get(mode, np.float64(v))


# ---------------------------------------------------------------- generation
def ispd(g, n):
    k = g.int(0, 2)
    if k == 0:
        return np.diag(1. + np.abs(g.ints(n, 3)))
    A = g.ints(n * n, 1).reshape(n, n)
    return A.dot(A.T) + (1. if k == 1 else 2.) * np.eye(n)


def imodel(g):
    c = filters.model(g, 3, 2)
    n, m = c['n'], c['m']
    c['whole'] = g.prob(6)
    if c['whole']:
        c['x0'] = g.ints(n, 4)
        c['P0'], c['Q'], c['R'] = ispd(g, n), ispd(g, n), ispd(g, m)
        c['F'] = np.eye(n) + np.triu(g.ints(n * n, 1).reshape(n, n), 1)
        c['H'] = g.ints(m * n, 2).reshape(m, n)
        if c['B'] is not None:
            c['B'] = g.ints(n * c['u_dim'], 2).reshape(n, -1)
    return c


def imeas(g, c, n, hi=9):
    return g.ints(n, hi) if c['whole'] else g.vec(n, 10.)


ATTRS = ('x', 'P', 'F', 'Q', 'H', 'R', 'B', 'V', 'W', 'P_inv', 'R_inv', 'K_steady')


def gen_filters(g):
    c = imodel(g)
    c['kind'] = g.choice(list(filters.ALL) + list(filters.OTHER))
    c['seed'], c['order'], c['scalar'] = g.int(0, 2 ** 31), g.int(0, 2), g.bool()
    c['alpha'] = g.choice([1., 1.1])
    c['modes'] = ['int'] * 6 if c['whole'] and g.prob(4) else [g.choice(MODES) for _ in range(6)]
    c['hist'] = []
    for _ in range(g.int(1, 5)):
        u = imeas(g, c, c['u_dim'], 3) if c['B'] is not None and g.bool() else None
        if u is not None and g.prob(3):
            u = u + .5
        c['hist'].append([u, None if g.prob(1) else imeas(g, c, c['m'])])
    return c


class Runner(object):
    """one estimator, all of its arrays stored by `st`"""

    def __init__(self, c, st):
        self.c, self.st, self.n = c, st, 0
        kind = c['kind']
        self.linear = kind in filters.ALL
        self.a = filters.A(kind, c) if self.linear else filters.W(kind, c)
        f = self.a.f
        fs = f.filters if kind in ('imm', 'mmae') else [f]
        for i, q in enumerate(fs):
            for a in ATTRS:
                v = getattr(q, a, None)
                if not isinstance(v, np.ndarray) or v.ndim == 0 or v.size == 0:
                    continue
                if kind == 'if' and a in ('P', 'R'):
                    continue
                if kind == 'if' and a in ('P_inv', 'R_inv'):
                    v = c[a[0] + '0' if a[0] == 'P' else 'R']
                if a == 'Q' and i:
                    v = c['Q'] * (i + 1.)
                if kind == 'srkf' and a in 'PQR':
                    v = c['P0' if a == 'P' else a]
                if kind == 'enkf' and a in 'xP':
                    continue
                setattr(q, a, self.keep(v))
        if kind == 'imm':
            f.M, f.mu = self.keep(np.array([[3., 1.], [1., 3.]]) * .25), f.mu
        if kind == 'mmae':
            f.H = self.keep(c['H'])
        if hasattr(f, 'fx'):
            fx, hx = f.fx, f.hx
            f.fx = lambda x, dt: self.keep(fx(x, dt))
            f.hx = lambda x: self.keep(hx(x))

    def keep(self, v):
        self.n += 1
        return self.st(v, self.n)

    def step(self, u, z):
        c, kind, f = self.c, self.c['kind'], self.a.f
        if self.linear:
            lay = c['layout'] if kind in filters.COLUMN else '1d'
            if kind in filters.COLUMN and u is not None:
                f.predict(u=self.keep(lin.shape_x(u, lay)))
            else:
                f.predict()
            zz = None if z is None else self.keep(lin.shape_x(z, lay))
            if kind == 'ekf':
                f.update(zz, lambda x: self.keep(c['H']), lambda x: self.keep(c['H'].dot(x)))
            else:
                f.update(zz)
            return
        if kind == 'hinf' and c['B'] is not None and u is not None:
            f.B = self.keep(c['B'])
            f.predict(self.keep(u.reshape(-1, 1)))
        else:
            self.a.predict()
        if z is None:
            self.a.update(None)
        elif kind in ('imm', 'mmae'):
            f.update(self.keep(lin.shape_x(z, c['layout'])))
        elif kind == 'enkf':
            np.random.seed(12)
            f.update(self.keep(z))
        elif kind in ('hinf', 'fls'):
            (f.update if kind == 'hinf' else f.smooth)(self.keep(z.reshape(-1, 1)))
        elif kind in ('gh', 'ghk') and not c['scalar']:
            f.update(self.keep(np.resize(z, c['n'])))
        else:
            f.update(number(z[0], NUMBERS[int(abs(z[0])) % len(NUMBERS)])
                     if self.st is not plain else float(z[0]))


OUT = ('x', 'P', 'P_inv', 'x_prior', 'P_prior', 'x_post', 'P_post', 'K', 'S', 'y', 'log_likelihood',
       'mahalanobis', 'mu', 'p', 'dx', 'ddx', 'sigmas', 'xSmooth')


def outputs(f):
    out = {}
    for a in OUT:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                v = getattr(f, a)
            except AttributeError:
                continue
            except np.linalg.LinAlgError:
                continue
        if callable(v) or v is None:
            continue
        v = np.array(v, dtype=float)
        out[a] = v
    return out


def agree(got, want, what, tol=1e-9):
    require(set(got) == set(want), '%s: attributes %s vs %s', what, sorted(got), sorted(want))
    for a in want:
        w = want[a]
        if not np.all(np.isfinite(w)) or (w.size and np.abs(w).max() > 1e9):
            continue
        s = np.abs(want['x']).max() if a in ('y', 'x_prior', 'x_post', 'dx', 'ddx') and \
            'x' in want and np.all(np.isfinite(want['x'])) else 0.
        close(got[a], w, '%s: %s' % (what, a), tol, max(1. if a in ('log_likelihood',
                                                                     'mahalanobis') else 0., s))


def run(c, st):
    r = Runner(c, st)
    res = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for u, z in c['hist']:
            try:
                r.step(u, z)
            except np.linalg.LinAlgError:
                res.append('singular')
                break
            res.append(outputs(r.a.f))
    return res, r


def plain(v, i):
    return np.array(v, dtype=float)


def check_filters(c, ctx):
    want, _ = run(c, plain)
    modes = c['modes']
    got, r = run(c, lambda v, i: store(v, modes[i % len(modes)]))
    for i, (a, b) in enumerate(zip(want, got)):
        if isinstance(a, str) or isinstance(b, str):
            break
        agree(b, a, '%s step %d' % (c['kind'], i))
        if np.abs(a['x']).max() > 1e6 or ('P' in a and np.abs(a['P']).max() > 1e8):
            break
    ctx.label(c['kind'], 'whole' if c['whole'] else 'real')
    ctx.nt(r.n >= 2 and sum(z is not None for u, z in c['hist']) >= 2)


# ---------------------------------------------------------------- whole runs and smoothers
BATCH = ['kf', 'kf_lists', 'ukf', 'rts_kf', 'rts_ukf', 'fn_batch', 'fn_rts', 'fls', 'gh', 'ghk']


def gen_batch(g):
    c = imodel(g)
    c['what'] = g.choice(BATCH)
    N = c['N'] = g.int(2, 5)
    c['zs'] = np.array([imeas(g, c, c['m']) for _ in range(N)])
    c['xs'] = np.array([imeas(g, c, c['n']) for _ in range(N)])
    c['Ps'] = np.array([ispd(g, c['n']) if c['whole'] else g.spd(c['n'], .1, 10.)
                        for _ in range(N)])
    c['us'] = np.array([imeas(g, c, c['u_dim'], 3) for _ in range(N)])
    if g.prob(3):
        c['us'] = c['us'] + .5
    c['first'] = g.bool()
    c['modes'] = ['int'] * 6 if c['whole'] and g.prob(4) else [g.choice(MODES) for _ in range(6)]
    return c


def batch(c, st):
    i = [0]

    def k(v):
        i[0] += 1
        return st(v, i[0])
    n, m, N, what = c['n'], c['m'], c['N'], c['what']
    d = dict(c)
    if what in ('kf', 'kf_lists', 'rts_kf', 'fn_batch', 'fn_rts'):
        f = filters.A('kf', d).f
        for a in ('F', 'Q', 'H', 'R', 'P'):
            setattr(f, a, k(c['P0' if a == 'P' else a]))
        f.x = k(lin.shape_x(c['x0'], c['layout']))
        if c['B'] is not None:
            f.B = k(c['B'])
    shape = (lambda v: v.reshape(N, -1, 1)) if c['layout'] == 'col' else (lambda v: v)
    if what == 'kf':
        return f.batch_filter(k(shape(c['zs'])), update_first=c['first'])
    if what == 'kf_lists':
        return f.batch_filter([k(z) for z in shape(c['zs'])], Fs=[k(c['F']) for _ in range(N)],
                              Qs=k(np.array([c['Q']] * N)), Hs=[k(c['H'])] * N,
                              Rs=[k(c['R'])] * N, update_first=c['first'],
                              **({'us': k(shape(c['us']))} if c['B'] is not None else {}))
    if what == 'rts_kf':
        if c['first']:
            return f.rts_smoother(k(shape(c['xs'])), k(c['Ps']))
        return f.rts_smoother(k(shape(c['xs'])), k(c['Ps']), Fs=k(np.array([c['F']] * N)),
                              Qs=[k(c['Q'])] * N)
    if what == 'fn_batch':
        B = {} if c['B'] is None else {'Bs': [k(c['B'])] * N, 'us': k(shape(c['us']))}
        return kalman.batch_filter(f.x, f.P, k(shape(c['zs'])), [k(c['F'])] * N, [k(c['Q'])] * N,
                                   [k(c['H'])] * N, [k(c['R'])] * N, update_first=c['first'], **B)
    if what == 'fn_rts':
        return kalman.rts_smoother(k(shape(c['xs'])), k(c['Ps']), [k(c['F'])] * N,
                                   k(np.array([c['Q']] * N)))
    if what in ('ukf', 'rts_ukf'):
        f = filters.A('ukf_merwe', d).f
        f.x, f.P, f.Q, f.R = k(c['x0']), k(c['P0']), k(c['Q']), k(c['R'])
        if what == 'ukf':
            return f.batch_filter([k(z) for z in c['zs']])
        return f.rts_smoother(k(c['xs']), k(c['Ps']))
    if what == 'fls':
        d['who'] = 'fls'
        d['seed'] = d['order'] = 0
        f = filters.W('fls', d).f
        f.x, f.P, f.F, f.H, f.Q, f.R = (k(c['x0'].reshape(-1, 1)), k(c['P0']), k(c['F']),
                                        k(c['H']), k(c['Q']), k(c['R']))
        us = None
        if c['B'] is not None:
            f.B = k(c['B'])
            us = [k(u.reshape(-1, 1)) for u in c['us']]
        zs = [k(z.reshape(-1, 1)) for z in c['zs']]
        xs, xh = f.smooth_batch(zs, 2, us)
        for i in range(N):
            f.smooth(zs[i], *([] if us is None else [us[i]]))
        return np.array(xs), np.array(xh), f.x, f.P, np.array(f.xSmooth)
    x, dx, a = (number(v, NUMBERS[k % len(NUMBERS)]) if st is not plain else float(v)
                for k, v in enumerate((c['x0'][0], c['x0'][-1] + 1., c['zs'][0, 0])))
    zs = k(c['zs'][:, 0])
    if what == 'gh':
        f = gh.GHFilter(x, dx, 1., .5, .25)
    else:
        f = gh.GHKFilter(x, dx, a, 1., .5, .25, .125)
    return f.batch_filter(zs), f.x, f.dx


def tree(got, want, what, tol=1e-9):
    """compare nested results"""
    if isinstance(want, (tuple, list)) and not all(np.isscalar(v) for v in want):
        require(isinstance(got, (tuple, list, np.ndarray)) and len(got) == len(want),
                '%s: other structure', what)
        for i, (a, b) in enumerate(zip(got, want)):
            tree(a, b, '%s[%d]' % (what, i), tol)
        return
    if want is None:
        require(got is None, '%s: %r instead of None', what, got)
        return
    w = np.array(want, dtype=float)
    if w.size == 0 or not np.all(np.isfinite(w)) or np.abs(w).max() > 1e9:
        return
    close(np.array(got, dtype=float), w, what, tol, 1.)


def check_batch(c, ctx):
    modes = c['modes']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            want = batch(c, plain)
        except np.linalg.LinAlgError:
            return
        got = batch(c, lambda v, i: store(v, modes[i % len(modes)]))
    tree(got, want, c['what'], 1e-8)
    ctx.label(c['what'], 'whole' if c['whole'] else 'real')
    ctx.nt()


# ---------------------------------------------------------------- functions
# argument kinds: v state vector, w second vector, P Q covariances, R S measurement covariance,
# F H matrices, z measurement, p probabilities, s number, t positive number, d small count
def ut(s, wm, wc, Q):
    return kalman.unscented_transform(s, wm, wc, Q)


def seeded(fn):
    def g(w):
        np.random.seed(3)
        return fn(w)
    return g


FUN = {
    'kf_predict': ('vPFQ', lambda x, P, F, Q: kalman.predict(x, P, F, Q)),
    'kf_predict_1d': ('sttt', lambda x, P, F, Q: kalman.predict(x, P, F, Q, 1, 2)),
    'kf_update': ('vPzRH', lambda x, P, z, R, H: kalman.update(x, P, z, R, H, return_all=True)),
    'kf_update_1d': ('stst', lambda x, P, z, R: kalman.update(x, P, z, R, return_all=True)),
    'kf_predict_ss': ('vF', lambda x, F: kalman.predict_steadystate(x, F)),
    'kf_update_ss': ('vzKH', lambda x, z, K, H: kalman.update_steadystate(x, z, K, H)),
    'sigma_merwe': ('vP', lambda x, P: kalman.MerweScaledSigmaPoints(len(x), .5, 2., 1.)
                    .sigma_points(x, P)),
    'sigma_merwe_int': ('vP', lambda x, P: kalman.MerweScaledSigmaPoints(len(x), 1, 2, 1)
                        .sigma_points(x, P)),
    'sigma_julier': ('vP', lambda x, P: kalman.JulierSigmaPoints(len(x), 1).sigma_points(x, P)),
    'sigma_simplex': ('vP', lambda x, P: kalman.SimplexSigmaPoints(len(x)).sigma_points(x, P)),
    'ut': ('GaaQ', ut),
    'spherical_radial': ('vP', lambda x, P: kalman.spherical_radial_sigmas(x, P)),
    'ckf_transform': ('gQ', lambda s, Q: kalman.ckf_transform(s, Q)),
    'mahalanobis': ('vwP', stats.mahalanobis),
    'logpdf': ('vwP', lambda x, m, P: stats.logpdf(x, m, P)),
    'log_likelihood': ('zvPHR', stats.log_likelihood),
    'likelihood': ('zvPHR', stats.likelihood),
    'gaussian': ('sst', stats.gaussian),
    'gaussian_array': ('vst', stats.gaussian),
    'gaussian_raw': ('sst', lambda x, m, v: stats.gaussian(x, m, v, normed=False)),
    'mul': ('stst', stats.mul),
    'mul_pdf': ('stst', stats.mul_pdf),
    'add': ('stst', stats.add),
    'multivariate_gaussian': ('vwP', stats.multivariate_gaussian),
    'multivariate_multiply': ('vPwQ', stats.multivariate_multiply),
    'ellipse': ('2t', lambda P, s: stats.covariance_ellipse(P, s)),
    'norm_cdf': ('vst', lambda x, m, v: stats.norm_cdf(np.sort(x)[[0, -1]], m, v)),
    'NEES': ('XYC', lambda x, y, P: stats.NEES(x, y, P)),
    'van_loan': ('FEt', lambda F, G, dt: common.van_loan_discretization(F, G, dt)),
    'linear_ode': ('FFQt', lambda F, L, Q, dt: common.linear_ode_discretation(F, L, Q, dt)),
    'Q_white': ('dttb', lambda d, dt, v, b: common.Q_discrete_white_noise(int(d), dt, v, int(b))),
    'Q_cont': ('dttb', lambda d, dt, v, b: common.Q_continuous_white_noise(int(d), dt, v, int(b))),
    'by_derivative': ('P', lambda P: common.order_by_derivative(P, len(P), 1)),
    'by_derivative2': ('P', lambda P: common.order_by_derivative(P, len(P), 2)),
    'kinematic_F': ('dt', lambda d, dt: common.kinematic_state_transition(int(d) - 1, dt)),
    'kinematic_kf': ('dt', lambda d, dt: common.kinematic_kf(2, int(d) - 1, dt).F),
    'inv_diagonal': ('D', common.inv_diagonal),
    'outer_sum': ('X', common.outer_product_sum),
    'outer_sum2': ('XY', common.outer_product_sum),
    'rk4': ('vst', lambda y, x, dx: common.runge_kutta4(y, x, dx, lambda a, b: a * .5 + b)),
    'rk4_1d': ('sst', lambda y, x, dx: common.runge_kutta4(y, x, dx, lambda a, b: a - 2 * b)),
    'systematic': ('p', seeded(monte_carlo.systematic_resample)),
    'stratified': ('p', seeded(monte_carlo.stratified_resample)),
    'residual': ('p', seeded(monte_carlo.residual_resample)),
    'multinomial': ('p', seeded(monte_carlo.multinomial_resample)),
    'bayes_update': ('kp', lambda a, b: db_update(a, b)),
    'bayes_predict': ('p3', lambda a, b: db_predict(a, 1, b)),
    'gh_noise': ('f', gh.optimal_noise_smoothing),
    'gh_lsq': ('d', gh.least_squares_parameters),
    'gh_critical': ('f', lambda t: (gh.critical_damping_parameters(t, 2),
                                    gh.critical_damping_parameters(t, 3))),
    'gh_bornder': ('f', gh.benedict_bornder_constants),
    'ghfilter': ('sstss', lambda x, dx, dt, z, y: [gh.GHFilter(x, dx, dt, .5, .25).update(z, g=1),
                                                   gh.GHFilter(x, dx, dt, 1, .25).update(y)]),
    'ghkfilter': ('sstss', lambda x, dx, dt, z, y:
                  [gh.GHKFilter(x, dx, y, dt, .5, .25, .1).update(z),
                   gh.GHKFilter(x, dx, y, dt, 1, 1, 1).update(z, k=2)]),
    'ghorder': ('vts', lambda x, dt, z: _runo(gh.GHFilterOrder(x, dt, len(x) - 1, .5, .25, .1), z)),
    'memory': ('vts', lambda x, dt, z: _runo(memory.FadingMemoryFilter(x, dt, len(x) - 1, .5), z)),
    'leastsq': ('tdss', lambda dt, d, z, y: _runl(leastsq.LeastSquaresFilter(dt, int(d) - 1, 1),
                                                  z, y)),
    'reshape_z': ('z', lambda z: [common.reshape_z(z, len(z), 1), common.reshape_z(z, len(z), 2)]),
}


def _runo(f, z):
    out = []
    for i in range(3):
        f.update(z)
        out.append(np.array(f.x, dtype=float))
    return np.array(out)


def _runl(f, z, y):
    out = []
    for v in (z, y, z, z):
        f.update(v)
        out.append(np.array(f.x, dtype=float))
    return np.array(out + [np.resize(f.errors()[0], len(f.x))])


def gen_fun(g):
    c = imodel(g)
    n = c['n'] = g.int(1, 3)
    c['name'] = g.choice(sorted(FUN))
    m = g.int(1, 2)
    if c['name'] in ('ghorder', 'memory'):
        n = g.int(1, 3)
    wh = c['whole']
    iv = lambda k: g.ints(k, 4) if wh else g.floats(k, 4.)
    ip = lambda k: ispd(g, k) if wh else g.spd(k, .1, 10.)
    N = g.int(1, 4)

    def prob(k):
        if wh:
            v = np.zeros(k)
            v[g.int(0, k - 1)] = 1.
            return v
        v = np.abs(g.floats(k, 1.)) + .05
        return v / v.sum()

    def draw(ch):
        if ch in 'vw':
            return iv(n)
        if ch in 'PQ':
            return ip(n)
        if ch == '2':
            return ip(2)
        if ch == 'R':
            return ip(m)
        if ch == 'F':
            return np.eye(n) + np.triu(iv(n * n).reshape(n, n), 1) if wh else g.trans(n)
        if ch == 'E':
            return iv(n * m).reshape(n, m)
        if ch == 'H':
            return iv(m * n).reshape(m, n)
        if ch == 'K':
            return iv(m * n).reshape(n, m)
        if ch == 'z':
            return iv(m)
        if ch == 'D':
            return np.diag(1. + np.abs(iv(n)))
        if ch in 'XY':
            return iv(N * n).reshape(N, n)
        if ch == 'C':
            return np.array([ip(n) for _ in range(N)])
        if ch == 'G':
            return iv((2 * n + 1) * n).reshape(-1, n)
        if ch == 'g':
            return iv(2 * n * n).reshape(-1, n)
        if ch == 'a':
            return prob(2 * n + 1)
        if ch in 'p':
            return prob(5)
        if ch == 'k':
            return np.abs(iv(5)) + 1.
        if ch == '3':
            return prob(3)
        if ch == 's':
            return float(g.int(-5, 5)) if wh else g.float(-5., 5.)
        if ch == 't':
            return float(g.int(1, 4)) if wh else g.float(.2, 4.)
        if ch == 'd':
            return float(g.int(2, {'Q_white': 4, 'Q_cont': 4, 'kinematic_F': 6, 'kinematic_kf': 6}.get(c['name'], 3)))
        if ch == 'b':
            return float(g.int(1, 2))
        if ch == 'f':
            return g.choice([.25, .5, 0., 1.]) if c['name'] != 'gh_bornder' else g.choice([.5, 1.])
        raise AssertionError(ch)
    spec = FUN[c['name']][0]
    c = {'name': c['name'], 'whole': wh, 'args': [draw(ch) for ch in spec],
         'modes': ['int'] * len(spec) if wh and g.prob(4) else [g.choice(MODES) for _ in spec], 'nums': [g.choice(NUMBERS) for _ in spec]}
    return c


def check_fun(c, ctx):
    fn = FUN[c['name']][1]

    def args(st):
        out = []
        for v, a, b in zip(c['args'], c['modes'], c['nums']):
            if isinstance(v, np.ndarray):
                out.append(store(v, a) if st else v.copy())
            else:
                out.append(number(v, b) if st else float(v))
        return out
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            want = fn(*args(False))
        except (np.linalg.LinAlgError, ZeroDivisionError):
            return
        given = args(True)
        kept = [copy.deepcopy(v) for v in given]
        got = fn(*given)
    if c['name'] in ('bayes_update',) and np.asarray(want).size == 0:
        return
    tree(got, want, c['name'])
    for i, (a, b) in enumerate(zip(given, kept)):
        require(np.array_equal(a, b), '%s changed argument %d', c['name'], i)
    ctx.label(c['name'], 'whole' if c['whole'] else 'real')
    ctx.nt()


SUBS = [Sub('filters', gen_filters, check_filters, 2500), Sub('runs', gen_batch, check_batch, 1000),
        Sub('functions', gen_fun, check_fun, 8000)]
