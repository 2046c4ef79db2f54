"""An argument left out means its documented default; positions and names agree."""
import importlib
import random
import warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from filterpy import common, gh, kalman, leastsq, memory, stats
from filterpy import discrete_bayes as bayes
from filterpy.hinfinity import HInfinityFilter
from vlib import filters, lin
from vlib.harness import Sub, close, require

PROPERTY = 'H06'
RULE = ('Every public constructor, method and function with random values for a random subset of its '
        'optional arguments, called with the others left out, with every documented default spelled '
        'out by name, and with everything by position; results and the resulting object must be the '
        'same; non-trivial: at least one optional argument given and one left out, or a call by '
        'position with three arguments or more.')

ATTR = ('x', 'P', 'P_inv', 'Q', 'R', 'R_inv', 'F', 'H', 'B', 'M', 'V', 'W', 'K', 'y', 'S', 'z', 'x_prior',
        'P_prior', 'x_post', 'P_post', 'alpha', 'gamma', 'dt', 'N', 'n', 'Wm', 'Wc', 'g', 'h', 'k',
        'dx', 'ddx', 'dz', 'p', 'mu', 'dim_x', 'dim_z', 'dim_u', 'order', 'sigma', 'sigmas', 'sigmas_f',
        'sigmas_h', 'log_likelihood', 'xSmooth', 'beta', 'kappa', 'compute_log_likelihood', 'x_prediction')


def flat(v):
    """any result as a list of comparable leaves"""
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in [k] + flat(v[k])]
    if isinstance(v, (list, tuple)) and not all(isinstance(x, (int, float, np.number)) for x in v):
        return [len(v)] + [x for e in v for x in flat(e)]
    return [v]


def alike(a, b, what):
    a, b = flat(a), flat(b)
    require(len(a) == len(b), '%s: %d values against %d', what, len(a), len(b))
    for x, y in zip(a, b):
        if isinstance(x, (str, bytes, bool, type(None))) or isinstance(y, (str, bool, type(None))):
            require(type(x) is type(y) and x == y, '%s: %r against %r', what, x, y)
            continue
        x, y = np.asarray(x), np.asarray(y)
        require(x.shape == y.shape, '%s: shapes %s and %s', what, x.shape, y.shape)
        if x.dtype == object or y.dtype == object:
            require(x.ravel().tolist() == y.ravel().tolist(), '%s: %r against %r', what, x, y)
            continue
        require(np.array_equal(np.isfinite(x), np.isfinite(y)), '%s: %s against %s', what, x, y)
        ok = np.isfinite(x)
        close(x[ok], y[ok], what, 1e-10, 1e-6)


def state(f):
    out = {}
    for k in ATTR:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                v = getattr(f, k)
            except (AttributeError, ValueError, ArithmeticError, np.linalg.LinAlgError):
                continue
        if not callable(v) and not isinstance(v, (list, tuple, str)):
            out[k] = np.array(v) if v is not None else None
    return out


def made(cls, **then):
    """a constructor: the new object's state"""
    def call(*a, **k):
        f = cls(*a, **k)
        return state(f)
    return call


def meth(make, name):
    """a method on a fresh object: what it returns and leaves behind"""
    def call(*a, **k):
        f = make()
        r = getattr(f, name)(*a, **k)
        return [r if not hasattr(r, 'predict') else None, state(f)]
    return call


def drawn(fn):
    """what a plotting function puts on its axes"""
    def call(*a, **k):
        plt.close('all')
        plt.figure()
        fn(*a, **k)
        ax = plt.gca()
        out = [np.array(l.get_xydata(), dtype=float) for l in ax.lines]
        out += [[np.array(p.get_center()), p.get_width(), p.get_height(), p.get_angle(),
                 np.array(p.get_facecolor()), np.array(p.get_edgecolor()), p.get_linestyle()]
                for p in ax.patches]
        out += [np.array(ax.get_xlim()), np.array(ax.get_ylim()), ax.get_xlabel(), ax.get_ylabel(),
                ax.get_title(), str(ax.get_aspect()), [l.get_label() for l in ax.lines]]
        out += [np.array(s.get_offsets(), dtype=float) for s in ax.collections]
        plt.close('all')
        return out
    return call


def mean_fn(s, w):
    return np.dot(w, s) + .25


def resid(a, b):
    return 1.5 * np.subtract(a, b)


def add2(a, b):
    return np.asarray(a) + .5 * np.asarray(b)


def upper(P):
    return 1.25 * np.linalg.cholesky(P).T


# name: (callable, [(required, value)...], [(optional, value, documented default)...])
def functions(c):
    n, d = c['n'], c['d']
    C, v, w, t = c['P0'], c['x0'], c['x1'], c['t']
    sing = np.outer(v, v) if c['vec'] else C    # a singular covariance is refused on request
    S3 = np.array([v, w, v - w])
    Wn = np.array([.5, .3, .2])
    b, dim = c['size'], c['dim']
    pdf = np.arange(1., 7.) / 21.
    return {
        'Q_discrete_white_noise': (common.Q_discrete_white_noise, [('dim', dim)], [
            ('dt', t, 1.), ('var', 2.5, 1.), ('block_size', b, 1), ('order_by_dim', False, True)]),
        'Q_continuous_white_noise': (common.Q_continuous_white_noise, [('dim', dim)], [
            ('dt', t, 1.), ('spectral_density', 2.5, 1.), ('block_size', b, 1),
            ('order_by_dim', False, True)]),
        'van_loan_discretization': (common.van_loan_discretization, [
            ('F', c['F'] * .1), ('G', c['Q']), ('dt', t)], []),
        'linear_ode_discretation': (common.linear_ode_discretation, [('F', c['F'] * .1)], [
            ('L', c['F'], np.eye(n)), ('Q', c['Q'], np.zeros((n, n))), ('dt', t, 1.)]),
        'order_by_derivative': (common.order_by_derivative, [
            ('Q', C), ('dim', n), ('block_size', b)], []),
        'kinematic_kf': (lambda *a, **k: state(common.kinematic_kf(*a, **k)), [
            ('dim', b), ('order', c['order'])], [
            ('dt', t, 1.), ('dim_z', 2, 1), ('order_by_dim', False, True)]),
        'kinematic_state_transition': (common.kinematic_state_transition, [
            ('order', c['order']), ('dt', t)], []),
        'outer_product_sum': (common.outer_product_sum, [('A', S3)], [('B', S3 + 1., None)]),
        'runge_kutta4': (common.runge_kutta4, [
            ('y', 1.5), ('x', t), ('dx', .25), ('f', lambda y, x: y - x * x)], []),
        'bayes.predict': (bayes.predict, [('pdf', pdf), ('offset', c['off']),
                                          ('kernel', np.array([.1, .7, .2]))], [
            ('mode', 'constant', 'wrap'), ('cval', .25, 0.)]),
        'bayes.update': (bayes.update, [('likelihood', pdf), ('prior', pdf[::-1] ** 2)], []),
        'critical_damping_parameters': (gh.critical_damping_parameters, [('theta', .7)], [
            ('order', 3, 2)]),
        'benedict_bornder_constants': (gh.benedict_bornder_constants, [('g', .6)], [
            ('critical', True, False)]),
        'ckf_transform': (importlib.import_module('filterpy.kalman.CubatureKalmanFilter').ckf_transform, [
            ('Xs', np.vstack([S3, S3 + .5])[:2 * n]), ('Q', c['Q'])], [
            ('mean_fn', lambda s, w=None: np.mean(s, axis=0) + .5, None), ('residual_fn', resid, np.subtract)]),
        'unscented_transform': (kalman.unscented_transform, [('sigmas', S3), ('Wm', Wn), ('Wc', Wn * 2)], [
            ('noise_cov', c['Q'], None), ('mean_fn', mean_fn, None), ('residual_fn', resid, None)]),
        'logpdf': (tried(stats.logpdf), [('x', v)], [('mean', w, None), ('cov', sing, 1),
                                              ('allow_singular', False, True)]),
        'log_likelihood': (stats.log_likelihood, [('z', c['z']), ('x', v), ('P', C), ('H', c['H']),
                                                  ('R', c['R'])], []),
        'likelihood': (stats.likelihood, [('z', c['z']), ('x', v), ('P', C), ('H', c['H']),
                                          ('R', c['R'])], []),
        'gaussian': (stats.gaussian, [('x', np.array([t, 1., 2.])), ('mean', 1.5), ('var', 2.)], [('normed', False, True)]),
        'mahalanobis': (stats.mahalanobis, [('x', v), ('mean', w), ('cov', C)], []),
        'multivariate_gaussian': (stats.multivariate_gaussian, [('x', v), ('mu', w), ('cov', C)], []),
        'multivariate_multiply': (stats.multivariate_multiply, [
            ('m1', v), ('c1', C), ('m2', w), ('c2', d['P0'])], []),
        'mul': (stats.mul, [('mean1', 1.), ('var1', 2.), ('mean2', t), ('var2', 5.)], []),
        'mul_pdf': (stats.mul_pdf, [('mean1', 1.), ('var1', 2.), ('mean2', t), ('var2', 5.)], []),
        'add': (stats.add, [('mean1', 1.), ('var1', 2.), ('mean2', t), ('var2', 5.)], []),
        'norm_cdf': (stats.norm_cdf, [('x_range', (0., t)), ('mu', .5)], [
            ('var', 2.5, 1), ('std', .75, None)]),
        'rand_student_t': (seeded(stats.rand_student_t), [('df', 5.)], [('mu', 3., 0), ('std', t, 1)]),
        'covariance_ellipse': (stats.covariance_ellipse, [('P', spd2(c))], [('deviations', 3, 1)]),
        'NEES': (stats.NEES, [('xs', S3), ('est_xs', S3[::-1] + .5), ('ps', np.array([C] * 3))], []),
        'update': (kalman.update, [('x', v[0]), ('P', C[0, 0]), ('z', c['z'][0]), ('R', t)], [
            ('H', 2.5, 1.), ('return_all', True, False)]),
        'update, vector': (kalman.update, [('x', v), ('P', C), ('z', c['z']), ('R', c['R']),
                                           ('H', c['H'])], [('return_all', True, False)]),
        'predict': (kalman.predict, [('x', v), ('P', C)], [
            ('F', c['F'], 1), ('Q', c['Q'], 0), ('u', w, 0), ('B', c['F2'], 1), ('alpha', 1.25, 1.)]),
        'predict_steadystate': (kalman.predict_steadystate, [('x', v)], [
            ('F', c['F'], 1), ('u', w, 0), ('B', c['F2'], 1)]),
        'update_steadystate': (kalman.update_steadystate, [('x', v[0]), ('z', c['z'][0]), ('K', .4)], [
            ('H', 2.5, 1.)]),
        'update_steadystate, vector': (kalman.update_steadystate, [
            ('x', v), ('z', c['z']), ('K', c['H'].T * .5), ('H', c['H'])], []),
        'batch_filter': (kalman.batch_filter, [
            ('x', v), ('P', C), ('zs', c['zs']), ('Fs', [c['F'], d['F']]), ('Qs', [c['Q'], d['Q']]),
            ('Hs', [c['H'], d['H']]), ('Rs', [c['R'], d['R']])], [
            ('Bs', [c['Bu'], c['Bu'] * 2], [0., 0.]), ('us', [c['u'], c['u'] + 1.], [0., 0.]),
            ('update_first', True, False), ('saver', None, None)]),
        'rts_smoother': (kalman.rts_smoother, [
            ('Xs', S3[:2]), ('Ps', np.array([C, d['P0']])), ('Fs', [c['F'], d['F']]),
            ('Qs', [c['Q'], d['Q']])], []),
    }


def tried(fn):
    def call(*a, **k):
        try:
            return fn(*a, **k)
        except (np.linalg.LinAlgError, ValueError):
            return 'refused'
    return call


def seeded(fn):
    def call(*a, **k):
        np.random.seed(5)
        random.seed(5)
        return fn(*a, **k)
    return call


def spd2(c):
    a = np.array([[2., .6], [.6, 1.]])
    return a * (1. + abs(c['x0'][0]))


def pictures(c):
    m2, C2 = np.array([1.5, -2.]), spd2(c)
    lim = dict(xlim=(-30., 31.), ylim=(-32., 33.))
    look = [('title', 'name', None), ('axis_equal', False, True), ('show_semiaxis', True, False)]
    tail = [('facecolor', 'red', None), ('edgecolor', 'blue', None), ('fc', 'green', 'none'),
            ('ec', 'black', '#004080'), ('alpha', .5, 1.), ('xlim', lim['xlim'], None),
            ('ylim', lim['ylim'], None), ('ls', 'dashed', 'solid')]
    head = [('cov', C2, None), ('variance', 4., 1.), ('std', 2., None)]
    ell = [('ellipse', (.5, 3., 1.), None)]
    return {
        'plot_covariance': (drawn(stats.plot_covariance), [('mean', m2)],
                            head + [('interval', .5, None)] + ell + look +
                            [('show_center', False, True)] + tail),
        'plot_covariance_ellipse': (drawn(stats.plot_covariance_ellipse), [('mean', m2)],
                                    head + ell + look + tail),
        'plot_gaussian_pdf': (drawn(stats.plot_gaussian_pdf), [], [
            ('mean', 1.5, 0.), ('variance', 4., 1.), ('std', 3., None), ('ax', None, None),
            ('mean_line', True, False), ('xlim', (-9., 8.), None), ('ylim', (0., 2.), None),
            ('xlabel', 'a', None), ('ylabel', 'b', None), ('label', 'c', None)]),
        'plot_gaussian_cdf': (drawn(stats.plot_gaussian_cdf), [], [
            ('mean', 1.5, 0.), ('variance', 4., 1.), ('ax', None, None), ('xlim', (-9., 8.), None),
            ('ylim', (0., 2.), (0., 1.)), ('xlabel', 'a', None), ('ylabel', 'b', None),
            ('label', 'c', None)]),
        'plot_gaussian': (drawn(stats.plot_gaussian), [], [
            ('mean', 1.5, 0.), ('variance', 4., 1.), ('ax', None, None),
            ('mean_line', True, False), ('xlim', (-9., 8.), None), ('ylim', (0., 2.), None),
            ('xlabel', 'a', None), ('ylabel', 'b', None), ('label', 'c', None)]),
        'plot_discrete_cdf': (drawn(stats.plot_discrete_cdf), [
            ('xs', np.arange(4.)), ('ys', np.array([.1, .2, .3, .4]))], [
            ('ax', None, None), ('xlabel', 'a', None), ('ylabel', 'b', None), ('label', 'c', None)]),
    }


def objects(c):
    n, m, d = c['n'], c['m'], c['d']
    fx, hx = (lambda x, dt: c['F'].dot(x) * dt), (lambda x: c['H'].dot(x))
    scalars = c['x1']
    pts = kalman.MerweScaledSigmaPoints(n, .5, 2., 1.)
    banks = lambda: [filters.A('kf', dict(c, Q=c['Q'] * (i + 1.))).f for i in range(2)]
    mu, M = np.array([.4, .6]), np.array([[.9, .1], [.3, .7]])
    g3 = [('g', .5), ('h', .2), ('k', .1)]
    out = {}
    for name, cls in (('KalmanFilter', kalman.KalmanFilter), ('EKF', kalman.ExtendedKalmanFilter),
                      ('SquareRoot', kalman.SquareRootKalmanFilter)):
        out[name] = (made(cls), [('dim_x', n), ('dim_z', m)], [('dim_u', 2, 0)])
    out['InformationFilter'] = (made(kalman.InformationFilter), [('dim_x', n), ('dim_z', m)], [
        ('dim_u', 2, 0), ('compute_log_likelihood', False, True)])
    out['FadingKalmanFilter'] = (made(kalman.FadingKalmanFilter), [
        ('alpha', 1.25), ('dim_x', n), ('dim_z', m)], [('dim_u', 2, 0)])
    out['HInfinityFilter'] = (made(HInfinityFilter), [
        ('dim_x', n), ('dim_z', m), ('dim_u', 2), ('gamma', .125)], [])
    out['FixedLagSmoother'] = (made(kalman.FixedLagSmoother), [('dim_x', n), ('dim_z', m)], [
        ('N', 4, None)])
    out['LeastSquaresFilter'] = (made(leastsq.LeastSquaresFilter), [
        ('dt', c['t']), ('order', min(c['order'], 2))], [('noise_sigma', 2., 0.)])
    out['FadingMemoryFilter'] = (made(memory.FadingMemoryFilter), [
        ('x0', scalars[0]), ('dt', c['t']), ('order', min(c['order'], 2)), ('beta', .6)], [])
    out['GHFilter'] = (made(gh.GHFilter), [('x', v1(c, 1.)), ('dx', v1(c, 2.)), ('dt', c['t'])] + g3[:2], [])
    out['GHKFilter'] = (made(gh.GHKFilter), [('x', v1(c, 1.)), ('dx', v1(c, 2.)), ('ddx', v1(c, 3.)),
                                             ('dt', c['t'])] + g3, [])
    out['GHFilterOrder'] = (made(gh.GHFilterOrder), [
        ('x0', 1.5), ('dt', c['t']), ('order', min(c['order'], 2)), ('g', .5)], [
        ('h', .2, None), ('k', .1, None)])
    out['EnKF'] = (seeded(made(kalman.EnsembleKalmanFilter)), [
        ('x', c['x0']), ('P', c['P0']), ('dim_z', m), ('dt', c['t']), ('N', 5), ('hx', hx), ('fx', fx)], [])
    out['IMM'] = (made(lambda *a, **k: kalman.IMMEstimator(*a, **k)), [
        ('filters', banks()), ('mu', mu), ('M', M)], [])
    out['MMAE'] = (made(kalman.MMAEFilterBank), [('filters', banks()), ('p', mu), ('dim_x', n)], [
        ('H', c['H'], None)])
    for name, cls, req, opt in (
            ('Merwe', kalman.MerweScaledSigmaPoints, [('alpha', .5), ('beta', 2.5), ('kappa', 1.)], []),
            ('Julier', kalman.JulierSigmaPoints, [], [('kappa', 1.5, 0.)]),
            ('Simplex', kalman.SimplexSigmaPoints, [], [('alpha', 2., 1)])):
        out[name] = (points(cls, c), [('n', n)] + req, opt + [
            ('sqrt_method', upper, None), ('subtract', resid, None)])

    def ukf(*a, **k):
        f = kalman.UnscentedKalmanFilter(*a, **k)
        f.x, f.P, f.Q, f.R = c['x0'].copy(), c['P0'] * 1., c['Q'], c['R']
        f.predict()
        f.update(c['z'])
        # the square root is whatever the points use, unless given: compared by what it computes
        r = None if f.msqrt is None else np.asarray(f.msqrt(c['P0']))
        return [state(f), r]

    def ckf(*a, **k):
        f = kalman.CubatureKalmanFilter(*a, **k)
        f.x, f.P, f.Q, f.R = c['x0'].copy(), c['P0'] * 1., c['Q'], c['R']
        f.predict()
        f.update(c['z'])
        return state(f)
    req = [('dim_x', n), ('dim_z', m), ('dt', c['t']), ('hx', hx), ('fx', fx)]
    out['UKF'] = (ukf, req + [('points', pts)], [
        ('sqrt_fn', upper, None), ('x_mean_fn', mean_fn, None), ('z_mean_fn', lambda s, w: mean_fn(s, w) + 1., None),
        ('residual_x', resid, None), ('residual_z', lambda a, b: resid(a, b) * 2., None),
        ('state_add', add2, None)])
    mean1 = lambda s, w=None: np.mean(s, axis=0) + .25
    out['CKF'] = (ckf, req, [
        ('x_mean_fn', mean1, None), ('z_mean_fn', lambda s, w=None: mean1(s) + 1., None),
        ('residual_x', resid, None), ('residual_z', lambda a, b: resid(a, b) * 2., None)])
    return out


def points(cls, c):
    def call(*a, **k):
        p = cls(*a, **k)
        return [np.array(p.Wm), np.array(p.Wc), p.num_sigmas(), np.array(p.sigma_points(c['x0'], c['P0']))]
    return call


def v1(c, s):
    return s * c['x0'] if c['vec'] else s


def methods(c):
    n, m, d, lay = c['n'], c['m'], c['d'], c['layout']
    z1 = c['z']

    def zz(kind):
        return lin.shape_x(z1, lay if kind in filters.COLUMN else '1d')

    def mk(kind):
        def make():
            a = filters.A(kind, c)
            a.predict()
            a.update(z1 + 1.)
            return a.f
        return make

    def of(kind, scalar=False):
        def make():
            o = filters.W(kind, dict(c, scalar=c['scalar'] or scalar))
            o.predict()
            o.update(z1 + 1.)
            return o.f
        return make
    u = lin.shape_x(c['u'], lay)
    cur = {k: np.array(c[k]) for k in 'FQHR'}
    B = c['B']
    other = {'F': d['F'], 'Q': d['Q'], 'H': d['H'], 'R': d['R']}
    uB = [('u', u, None), ('B', 2. * B, B)]
    FQ = [('F', other['F'], None), ('Q', other['Q'], None)]
    RH = [('R', other['R'], None), ('H', other['H'], None)]
    zs = [zz('kf'), zz('kf') + 1., None]
    L = lambda k, s=1.: [other[k] * s, other[k], other[k] * s]
    Xs = np.array([lin.shape_x(c['x0'] + i, lay) for i in range(3)])
    Ps = np.array([c['P0'] * (1. + i) for i in range(3)])
    out = {
        'kf.predict': (meth(mk('kf'), 'predict'), [], uB + FQ),
        'kf.update': (meth(mk('kf'), 'update'), [('z', zz('kf'))], RH),
        'kf.predict_steadystate': (meth(mk('kf'), 'predict_steadystate'), [], uB),
        'kf.update_correlated': (meth(mk('kf'), 'update_correlated'), [('z', zz('kf'))], RH),
        'kf.get_prediction': (meth(mk('kf'), 'get_prediction'), [], uB + FQ),
        'kf.get_update': (meth(mk('kf'), 'get_update'), [], [('z', zz('kf'), None)]),
        'kf.update_sequential': (meth(mk('kf'), 'update_sequential'), [
            ('start', m - 1), ('z_i', float(z1[0]))], [
            ('R_i', 2.5, cur['R'][m - 1:, m - 1:]), ('H_i', other['H'][:1], cur['H'][m - 1:])]),
        'kf.batch_filter': (meth(mk('kf'), 'batch_filter'), [('zs', zs)], [
            ('Fs', L('F'), None), ('Qs', L('Q', .5), None), ('Hs', L('H'), None), ('Rs', L('R', 2.), None),
            ('Bs', [B, 2. * B, B], None), ('us', [u, u + 1., u], None), ('update_first', True, False),
            ('saver', None, None)]),
        'kf.rts_smoother': (meth(mk('kf'), 'rts_smoother'), [('Xs', Xs), ('Ps', Ps)], [
            ('Fs', L('F'), [cur['F']] * 3), ('Qs', L('Q', .5), [cur['Q']] * 3),
            ('inv', lambda P: .5 * np.linalg.inv(P), np.linalg.inv)]),
        'srkf.predict': (meth(mk('srkf'), 'predict'), [], [('u', u, 0)]),
        'srkf.update': (meth(mk('srkf'), 'update'), [('z', zz('srkf'))], [
            ('R2', np.linalg.cholesky(other['R']), None)]),
        'if.predict': (meth(mk('if'), 'predict'), [], [('u', u, 0)]),
        'if.update': (meth(mk('if'), 'update'), [('z', zz('if'))], [
            ('R_inv', np.linalg.inv(other['R']), None)]),
        'fkf.predict': (meth(mk('fkf'), 'predict'), [], [('u', u, 0)]),
        'fkf.get_prediction': (meth(mk('fkf'), 'get_prediction'), [], [('u', u, 0)]),
        'fkf.update': (meth(mk('fkf'), 'update'), [('z', zz('fkf'))], RH[:1]),
        'fkf.batch_filter': (meth(lambda: filters.A('fkf', dict(c, layout='col')).f, 'batch_filter'), [
            ('zs', [z.reshape(-1, 1) for z in zs[:2]] + [None])], [
            ('Rs', L('R', 2.), None), ('update_first', True, False)]),
        'hinf.batch_filter': (meth(of('hinf'), 'batch_filter'), [
            ('Zs', [z1.reshape(-1, 1), z1.reshape(-1, 1) + 1.])], [
            ('update_first', True, False), ('saver', None, None)]),
        'fls.smooth_batch': (meth(of('fls'), 'smooth_batch'), [
            ('zs', [z1.reshape(-1, 1) + i for i in range(4)]), ('N', 2)], []),
        'imm.predict': (meth(of('imm'), 'predict'), [], uB[:1]),
        'mmae.predict': (meth(of('mmae'), 'predict'), [], uB[:1]),
        'mmae.update': (meth(of('mmae'), 'update'), [('z', zz('kf'))], RH),
        'enkf.update': (seeded(meth(of('enkf'), 'update')), [('z', z1)], RH[:1]),
        'gh.update': (meth(of('gh'), 'update'), [('z', v1z(c))], [('g', .7, None), ('h', .3, None)]),
        'ghk.update': (meth(of('ghk'), 'update'), [('z', v1z(c))], [
            ('g', .7, None), ('h', .3, None), ('k', .15, None)]),
        'order.update': (meth(of('order'), 'update'), [('z', 2.5)], [
            ('g', .7, None), ('h', .3, None), ('k', .15, None)]),
        'gh.batch_filter': (meth(of('gh', True), 'batch_filter'), [('data', [1.5, 2.5, 4.])], [
            ('save_predictions', True, False), ('saver', None, None)]),
        'ghk.batch_filter': (meth(of('ghk', True), 'batch_filter'), [('data', [1.5, 2.5, 4.])], [
            ('save_predictions', True, False)]),
    }
    # nonlinear filters, with arguments for the callbacks
    H = lambda x, a=1., b=2.: c['H'] * a + b * .1
    h = lambda x, a=1., b=2.: (c['H'] * a).dot(x) + b
    args = [('args', (2., 3.), ()), ('hx_args', (.5, 4.), ())]
    out['ekf.predict'] = (meth(mk('ekf'), 'predict'), [], [('u', u, 0)])
    out['ekf.update'] = (meth(mk('ekf'), 'update'), [('z', zz('ekf')), ('HJacobian', H), ('Hx', h)],
                         RH[:1] + args + [('residual', resid, np.subtract)])
    out['ekf.predict_update'] = (meth(mk('ekf'), 'predict_update'), [
        ('z', zz('ekf')), ('HJacobian', H), ('Hx', h)], args + [('u', u, 0)])
    mean = lambda s, w: np.dot(w, s) + .25

    def UT(sigmas, Wm, Wc, noise_cov=None, mean_fn=None, residual_fn=None):
        x, P = kalman.unscented_transform(sigmas, Wm, Wc, noise_cov, mean_fn, residual_fn)
        return x + .25, 1.5 * P
    fx2, hx2 = (lambda x, dt: d['F'].dot(x) * dt), (lambda x: d['H'].dot(x))
    dtd = [('dt', c['t'], None)]
    ut = [('UT', UT, None)]

    def ukf():
        f = mk('ukf_merwe')()
        f.fx = lambda x, dt: c['F'].dot(x) * dt + dt
        return f
    out['ukf.predict'] = (meth(ukf, 'predict'), [], dtd + ut + [('fx', fx2, None)])
    out['ukf.update'] = (meth(ukf, 'update'), [('z', z1)], RH[:1] + ut + [('hx', hx2, None)])
    out['ukf.compute_process_sigmas'] = (meth(ukf, 'compute_process_sigmas'), [('dt', c['t'])], [
        ('fx', fx2, None)])
    out['ukf.batch_filter'] = (meth(ukf, 'batch_filter'), [('zs', [z1, z1 + 1., z1 - 1.])], [
        ('Rs', L('R', 2.), None), ('dts', [.5, 1., c['t']], None)] + ut + [('saver', None, None)])
    out['ukf.rts_smoother'] = (meth(ukf, 'rts_smoother'), [
        ('Xs', Xs.reshape(3, -1)), ('Ps', Ps)], [
        ('Qs', L('Q', .5), None), ('dts', [.5, 1., c['t']], None)] + ut)

    def ckf():
        f = mk('ckf')()
        f.fx = lambda x, dt, a=1., b=2.: c['F'].dot(x) * dt * a + b
        f.hx = lambda x, a=1., b=2.: c['H'].dot(x) * a + b
        return f
    out['ckf.predict'] = (meth(ckf, 'predict'), [], dtd + [('fx_args', (.5, 4.), ())])
    out['ckf.update'] = (meth(ckf, 'update'), [('z', z1)], RH[:1] + [('hx_args', (.5, 4.), ())])
    del cur, mean
    return out


def v1z(c):
    return np.resize(c['z'], c['n']) if not c['scalar'] else float(c['z'][0])


def saver_call(c):
    def run(*a, **k):
        f = filters.A('kf', c).f
        s = common.Saver(f, *a, **k)
        f.predict()
        s.save()
        return [sorted(x for x in s.__dict__ if not x.startswith('__')), len(s), np.array(s.x, dtype=float)]
    return {'Saver': (run, [], [('save_current', True, False), ('skip_private', True, False),
                                ('skip_callable', True, False), ('ignore', ('P', 'y'), ())])}


def base(g):
    c = filters.model(g, 3, 2)
    n, m = c['n'], c['m']
    c['B'] = g.mat(n, 1) if c['B'] is None else c['B']
    c['u_dim'] = c['B'].shape[1]
    c['d'] = {'F': np.eye(n) + .3 * g.mat(n, n), 'Q': g.spd(n, 1e-2, 4.), 'H': g.mat(m, n), 'R': g.spd(m, 1e-2, 9.),
              'P0': g.spd(n, 1e-1, 9.)}
    c['u'], c['z'], c['x1'] = g.vec(c['u_dim'], 4.) + .25, g.vec(m), g.vec(n)
    c['zs'] = [g.vec(m), g.vec(m)]
    c['Bu'], c['F2'] = c['B'], np.eye(n) + .3 * g.mat(n, n)
    c['t'] = g.choice([.5, .25, 2., 3.])
    c['dim'], c['size'], c['order'], c['off'] = g.int(2, 4), g.int(2, 3), g.int(1, 3), g.int(-2, 2)
    c['vec'], c['scalar'], c['seed'] = g.bool(), g.bool(), g.int(0, 99)
    c['mask'] = [g.bool() for _ in range(20)]
    c['pick'] = g.int(0, 10 ** 6)
    return c


def one(table, order=False):
    def check(c, ctx):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t = {}
            for f in table:
                t.update(f(dict(c, order=min(c['order'], 2)) if order else c))
            name = sorted(t)[c['pick'] % len(t)]
            fn, req, opt = t[name]
            given = [i for i in range(len(opt)) if c['mask'][i]]
            out = [i for i in range(len(opt)) if not c['mask'][i]]
            if name == 'GHFilterOrder':
                given = list(range(len(opt)))       # which gains are needed depends on the order
                out = []
            if name in ('plot_covariance', 'plot_covariance_ellipse'):
                # one way to give the shape and one to give the size
                shape, size = ('cov', 'ellipse'), ('variance', 'std', 'interval')
                keep = [shape[c['pick'] // 7 % 2]] + [k for k in size if k == size[c['pick'] // 11 % 3]]
                given = [i for i, o in enumerate(opt) if o[0] == keep[0] or i in given and
                         (o[0] in keep or o[0] not in shape + size)]
            if name == 'plot_gaussian_pdf' and 1 in given and 2 in given:
                given.remove(1 + c['pick'] // 7 % 2)
            if name == 'plot_gaussian_pdf' and 2 in given:
                opt[1] = ('variance', None, None)       # the deviation is given instead
            if name.startswith('batch_filter') or name == 'kf.batch_filter':
                pair = [i for i, o in enumerate(opt) if o[0] in ('Bs', 'us')]
                if name == 'batch_filter' and sum(i in given for i in pair) == 1:
                    given = sorted(set(given) | set(pair))
            out = [i for i in range(len(opt)) if i not in given]
            rv = [v for _, v in req]
            short = {opt[i][0]: opt[i][1] for i in given}
            full = {o[0]: (o[1] if i in given else o[2]) for i, o in enumerate(opt)}
            named = dict(req)
            named.update(full)
            base_ = fn(*rv, **short)
            what = '%s with %s given' % (name, sorted(short))
            alike(fn(*rv, **full), base_, what + ': defaults spelled out')
            alike(fn(**named), base_, what + ': everything by name')
            last = max(given) + 1 if given else 0
            alike(fn(*(rv + [full[o[0]] for o in opt[:last]])), base_, what + ': by position')
            alike(fn(*(rv + [full[o[0]] for o in opt])), base_, what + ': everything by position')
        ctx.label(name)
        ctx.nt(bool(given and out) or len(req) + len(opt) >= 3)
    return check


# ------------------------------------------------------------------ nothing is not the same as zero
# kind: (method, [(argument, attribute, value that means "none of it")...])
ZERO = {
    'kf': [('predict', 'Q', 'Q', 'square'), ('predict', 'F', 'F', 'zeros'), ('predict', 'B', 'B', 'zeros'),
           ('update', 'R', 'R', 'any'), ('update', 'H', 'H', 'zeros')],
    'ekf': [('update', 'R', 'R', 'any')], 'fkf': [('update', 'R', 'R', 'any')],
    'srkf': [('update', 'R2', 'R', 'any')], 'ukf_merwe': [('update', 'R', 'R', 'any'), ('predict', 'dt', '_dt', 'dt')],
    'ukf_julier': [('update', 'R', 'R', 'any')], 'ckf': [('update', 'R', 'R', 'any'), ('predict', 'dt', '_dt', 'dt')],
    'if': [('update', 'R_inv', 'R_inv', 'any')], 'enkf': [('update', 'R', 'R', 'any')],
    'mmae': [('update', 'R', 'R', 'any')],
    'gh': [('update', 'g', 'g', 'num'), ('update', 'h', 'h', 'num')],
    'ghk': [('update', 'g', 'g', 'num'), ('update', 'h', 'h', 'num'), ('update', 'k', 'k', 'num')],
    'order': [('update', 'g', 'g', 'num'), ('update', 'h', 'h', 'num'), ('update', 'k', 'k', 'num')],
}


def gen_zero(g):
    c = base(g)
    c['kind'] = g.choice(sorted(ZERO))
    c['which'] = g.int(0, len(ZERO[c['kind']]) - 1)
    c['form'] = g.choice(['int', 'float', 'np', 'matrix'])
    return c


def check_zero(c, ctx):
    """a value given for one call is used even when it is nought: as if the object had held it"""
    kind = c['kind']
    method, arg, attr, what = ZERO[kind][c['which']]
    c = dict(c, order=min(c['order'], 2))
    if c['kind'] == 'order':
        c['scalar'] = True
    n, m = c['n'], c['m']
    if arg in ('R', 'R2') and np.linalg.matrix_rank(c['H'], 1e-1) < m:
        return
    square = n if arg in 'QF' else m
    value = {'int': 0, 'float': 0., 'np': np.float64(0.)}.get(c['form'], 0.)
    if what == 'zeros' or what in ('any', 'square') and c['form'] == 'matrix':
        value = np.zeros(np.shape(c[arg]) if arg in 'HFB' else (square, square))
    objs = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for given in (True, False):
            np.random.seed(3)
            random.seed(3)
            if kind in ZERO_A:
                o = filters.A(kind, dict(c, given=None))
                f = o.f
                o.predict()
                o.update(c['z'] + 1.)
            else:
                o = filters.W(kind, c)
                f = o.f
                o.predict()
                o.update(c['z'] + 1.)
            kw = {}
            if given:
                kw[arg] = value
            else:
                for t in (list(f.filters) if kind == 'mmae' else [f]):
                    # (a square root of nought cannot be taken: next to nothing, there)
                    nought = np.eye(square) * (1e-30 if kind == 'srkf' else 0.)
                    setattr(t, attr, nought if attr in ('R', 'Q', 'R_inv') else value)
            if kind in ZERO_A:
                zz = o.zarg(c['z'])
                u = lin.shape_x(c['u'], c['layout'] if kind in filters.COLUMN else '1d')
            else:
                zz = v1z(c) if kind in ('gh', 'ghk') else float(c['z'][0]) if kind == 'order' else \
                    c['z'] if kind == 'enkf' else lin.shape_x(c['z'], c['layout'])
            args = ((u,) if arg == 'B' else ()) if method == 'predict' else (zz,)
            if kind == 'ekf':
                args += (o.jac, o.hx)
            try:
                if method == 'update' and kind not in ('gh', 'ghk', 'order'):
                    f.predict()
                getattr(f, method)(*args, **kw)
            except (np.linalg.LinAlgError, ValueError, ArithmeticError):
                objs.append(None)
                continue
            s = state(f)
            objs.append({k: s[k] for k in s if k in ('x', 'P', 'K', 'y', 'S', 'P_inv', 'dx', 'ddx')})
    if objs[1] is None and objs[0] is None:
        return
    if objs[1] is None or objs[0] is None:
        require(False, '%s.%s with %s=%r: %s', kind, method, arg, value,
                'refused only when %s' % ('given' if objs[0] is None else 'set on the object'))
    a, b = objs
    require(sorted(a) == sorted(b), '%r against %r', sorted(a), sorted(b))
    for k in sorted(a):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p, q = np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float)
        what = '%s of %s after %s(%s=%r)' % (k, kind, method, arg, value)
        require(p.shape == q.shape, '%s: shapes %s and %s', what, p.shape, q.shape)
        require(np.array_equal(np.isfinite(p), np.isfinite(q)), '%s: %s against %s', what, p, q)
        ok = np.isfinite(p)
        close(p[ok], q[ok], what, 1e-7, 1.)
    ctx.label(kind, arg, c['form'])
    ctx.nt()


ZERO_A = ('kf', 'ekf', 'fkf', 'srkf', 'ukf_merwe', 'ukf_julier', 'ckf', 'if')


SUBS = [Sub('functions', base, one([functions, saver_call]), 1200),
        Sub('constructors', base, one([objects]), 800),
        Sub('methods', base, one([methods], True), 1500),
        Sub('zeros', gen_zero, check_zero, 800),
        Sub('plots', base, one([pictures]), 120)]
