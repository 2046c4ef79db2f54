"""A new estimator starts from its documented defaults and shares nothing with another one."""
import warnings
import numpy as np
from filterpy import kalman, gh, memory, leastsq
from filterpy.hinfinity import HInfinityFilter
from filterpy.kalman import (KalmanFilter, SquareRootKalmanFilter, InformationFilter, FixedLagSmoother,
                             ExtendedKalmanFilter, FadingKalmanFilter, UnscentedKalmanFilter,
                             CubatureKalmanFilter, EnsembleKalmanFilter, MerweScaledSigmaPoints,
                             JulierSigmaPoints, IMMEstimator, MMAEFilterBank)
from vlib import filters, lin
from vlib.harness import Sub, close, require, same

PROPERTY = 'H04'
RULE = ('Every class in random sizes, freshly built: all public state against the documented initial '
        'values and memory sharing between attributes and objects; histories in which a random subset '
        'of matrices is left at its default against the same history with those defaults assigned; '
        'user-supplied inversion functions, recorded. Non-trivial: more than one state, or a default '
        'left in place over at least one predict and update.')

KINDS = ('kf', 'srkf', 'if', 'ekf', 'fkf', 'fls', 'hinf', 'ukf', 'ckf', 'enkf')
OTHER = ('gh', 'ghk', 'order', 'memory', 'lsq', 'imm', 'mmae')


def fx(x, dt):
    return np.array(x, dtype=float)


def new(kind, n, m, du, c):
    hx = lambda x: np.resize(np.asarray(x, dtype=float), m)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind == 'fls':
            return FixedLagSmoother(n, m, N=c['N'])
        if kind == 'hinf':
            return HInfinityFilter(n, m, du, c['gamma'])
        if kind == 'fkf':
            return FadingKalmanFilter(c['alpha'], n, m, du) if du else FadingKalmanFilter(c['alpha'], n, m)
        if kind == 'ckf':
            return CubatureKalmanFilter(n, m, c['dt'], hx, fx)
        if kind == 'ukf':
            pts = MerweScaledSigmaPoints(n, .5, 2., 1.) if c['N'] % 2 else JulierSigmaPoints(n, 1.)
            return UnscentedKalmanFilter(n, m, c['dt'], hx, fx, pts)
        if kind == 'enkf':
            return EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), m, c['dt'], c['N'] + 2, hx, fx)
        cls = {'kf': KalmanFilter, 'srkf': SquareRootKalmanFilter, 'if': InformationFilter,
               'ekf': ExtendedKalmanFilter}[kind]
        return cls(n, m, du) if du else cls(dim_x=n, dim_z=m)


def gen(g):
    n, m = g.int(1, 6), g.int(1, 4)
    return {'kind': g.choice(KINDS + OTHER), 'n': n, 'm': m, 'du': g.int(0, 2), 'N': g.int(1, 6),
            'gamma': g.float(0., .5), 'alpha': g.float(1., 1.5), 'dt': g.logfloat(.01, 10.),
            'x0': g.vec(n), 'P0': g.spd(n), 'order': g.int(0, 2), 'seed': g.int(0, 999)}


def arrays(f):
    return {k: v for k, v in vars(f).items() if isinstance(v, np.ndarray)}


def unshared(f, g, what):
    a, b = arrays(f), arrays(g)
    for k, v in a.items():
        for q, w in b.items():
            require(not np.shares_memory(v, w), '%s: %s of one object is %s of another', what, k, q)
    names = sorted(k for k in a if k[0] not in '_W')
    for i, k in enumerate(names):
        for q in names[i + 1:]:
            require(not np.shares_memory(a[k], a[q]), '%s: editing %s in place changes %s', what, k, q)


def eq(got, want, what):
    got = np.asarray(got)
    want = np.asarray(want, dtype=float)
    require(got.shape == want.shape, '%s has shape %s, documented %s', what, got.shape, want.shape)
    require(np.array_equal(got.astype(float), want), '%s is %s, documented %s', what, got, want)


def num(v, want, what):
    """a scalar or array all of whose entries are `want`"""
    require(np.all(np.asarray(v, dtype=float) == want), '%s is %s', what, v)


def check(c, ctx):
    kind, n, m = c['kind'], c['n'], c['m']
    ctx.label(kind)
    ctx.nt(n > 1)
    if kind in OTHER:
        return check_other(c, ctx)
    np.random.seed(c['seed'])
    f = new(kind, n, m, c['du'], c)
    np.random.seed(c['seed'] + 1)
    f2 = new(kind, n, m, c['du'], c)
    what = type(f).__name__
    unshared(f, f2, what)
    col = kind not in ('ukf', 'ckf', 'enkf')
    x = np.zeros((n, 1)) if col else np.zeros(n)
    P = np.eye(n)
    if kind == 'enkf':
        x, P = c['x0'], c['P0']
    eq(f.x, x, what + ' x')
    eq(f.Q, np.eye(n), what + ' Q')
    if kind == 'if':
        eq(f.P_inv, P, what + ' P_inv')
        eq(f.R_inv, np.eye(m), what + ' R_inv')
    else:
        eq(f.P, P, what + ' P')
        if kind != 'hinf':
            eq(f.R, np.eye(m), what + ' R')
    if kind in ('kf', 'srkf', 'ekf', 'fkf', 'fls', 'hinf'):
        eq(f.F, np.eye(n), what + ' F')
    if kind in ('kf', 'srkf', 'if', 'fkf', 'hinf'):
        eq(f.H, np.zeros((m, n)), what + ' H')
    if kind == 'fls':
        eq(f.H, np.eye(m, n), what + ' H')
        require(f.N == c['N'] and len(f.xSmooth) == 0 and f.count == 0, 'new smoother is not empty')
    if kind == 'hinf':
        eq(f.V, np.zeros((m, m)), what + ' V')
        eq(f.W, np.zeros((n, n)), what + ' W')
        require(f.gamma == c['gamma'], 'gamma')
    if kind == 'kf':
        require(f.alpha == 1., 'a new filter has fading factor %r', f.alpha)
        eq(f.M, np.zeros((n, m)), what + ' M')
        require(f.inv is np.linalg.inv, 'inv is not numpy.linalg.inv')
    if kind == 'fkf':
        close(np.sqrt(f.alpha_sq) if not hasattr(f, 'alpha') else f.alpha, c['alpha'], what + ' alpha',
              1e-12)
    if hasattr(f, 'B') and f.B is not None:
        num(f.B, 0, what + ' B')
    if hasattr(f, 'y'):
        require(np.size(f.y) == m, '%s: y has %s elements', what, np.size(f.y))
        num(f.y, 0, what + ' y')
    if kind not in ('if', 'hinf', 'fls'):
        require(np.size(f.z) == m and all(v is None for v in np.ravel(f.z)),
                '%s: measurement before the first update is %r', what, f.z)
    for a in ('dim_x', 'dim_z', 'dim_u'):
        if hasattr(f, a):
            require(getattr(f, a) == {'dim_x': n, 'dim_z': m, 'dim_u': c['du']}[a], '%s: %s is %r', what, a,
                    getattr(f, a))
    if kind not in ('fls', 'hinf'):
        same(np.asarray(f.x_prior, float), np.asarray(f.x, float), what + ' x_prior of a new filter')
        same(np.asarray(f.x_post, float), np.asarray(f.x, float), what + ' x_post of a new filter')
        now = f.P_inv if kind == 'if' else f.P
        for a in (('P_inv_prior', 'P_inv_post') if kind == 'if' else ('P_prior', 'P_post')):
            same(np.asarray(getattr(f, a), float), np.asarray(now, float), '%s %s of a new filter' % (what, a))
    if kind == 'enkf':
        require(np.shape(f.sigmas) == (c['N'] + 2, n), 'ensemble shape %s', np.shape(f.sigmas))
    # everything a new filter reports is usable
    repr(f)
    if hasattr(f, 'likelihood'):
        require(0 < f.likelihood and np.isfinite(f.log_likelihood), '%s: likelihood of a new filter', what)


def check_other(c, ctx):
    kind, o = c['kind'], c['order']
    x0 = c['x0']
    if kind in ('gh', 'ghk'):
        mk = (lambda: gh.GHFilter(x0.copy(), x0 * 2, c['dt'], .5, .2)) if kind == 'gh' else \
            (lambda: gh.GHKFilter(x0.copy(), x0 * 2, x0 * 3, c['dt'], .5, .2, .1))
        f, f2 = mk(), mk()
        same(f.x, x0, 'x')
        same(f.dx, x0 * 2, 'dx')
        num(f.y, 0, 'residual of a new filter')
        require(f.dt == c['dt'] and f.g == .5 and f.h == .2, 'gains of a new filter')
        if kind == 'ghk':
            same(f.ddx, x0 * 3, 'ddx')
            require(f.k == .1, 'k')
        same(f.x_prediction, x0, 'x_prediction of a new filter')
        same(f.dx_prediction, x0 * 2, 'dx_prediction of a new filter')
        a, b = arrays(f), arrays(f2)
    elif kind == 'order':
        f = gh.GHFilterOrder(np.arange(1., o + 2), c['dt'], o, .5, .2, .1)
        same(np.asarray(f.x, float), np.arange(1., o + 2), 'x')
        require((f.dt, f.order, f.g, f.h, f.k) == (c['dt'], o, .5, .2, .1), 'parameters')
        num(f.y, 0, 'residual of a new filter')
    elif kind == 'memory':
        f = memory.FadingMemoryFilter(np.arange(1., o + 2), c['dt'], o, .6)
        same(np.asarray(f.x, float), np.arange(1., o + 2), 'x')
        require((f.dt, f.order, f.beta) == (c['dt'], o, .6), 'parameters')
        f = memory.FadingMemoryFilter([7] * (o + 1), c['dt'], o, .6)
        same(np.asarray(f.x, float), np.full(o + 1, 7.), 'x')
        f = memory.FadingMemoryFilter(3., c['dt'], 0, .6)
        require(isinstance(f.x, np.ndarray) and float(f.x.ravel()[0]) == 3., 'order zero state %r', f.x)
    elif kind == 'lsq':
        f, f2 = leastsq.LeastSquaresFilter(c['dt'], o), leastsq.LeastSquaresFilter(c['dt'], o)
        unshared(f, f2, 'LeastSquaresFilter')
        require(f.n == 0 and f.sigma == 0 and f.dt == c['dt'], 'n, sigma, dt of a new filter')
        require(np.size(f.x) == o + 1, 'state size %d', np.size(f.x))
        num(f.x, 0, 'state of a new filter')
        num(f.y, 0, 'residual of a new filter')
    else:
        n, m = c['n'], c['m']
        np.random.seed(c['seed'])
        bank = []
        for i in range(2):
            kf = KalmanFilter(n, m)
            kf.x, kf.P = c['x0'] * (i + 1.), c['P0'] * (i + 1.)
            kf.H = np.eye(m, n)
            bank.append(kf)
        if kind == 'imm':
            b = IMMEstimator(bank, [.25, .75], np.array([[.9, .1], [.3, .7]]))
            same(np.asarray(b.mu, float), np.array([.25, .75]), 'mode probabilities')
        else:
            b = MMAEFilterBank(bank, [.25, .75], n, H=bank[0].H)
            same(np.asarray(b.p, float), np.array([.25, .75]), 'probabilities')
        same(b.x_prior, b.x, 'x_prior of a new bank')
        same(b.x_post, b.x, 'x_post of a new bank')
        same(b.P_prior, b.P, 'P_prior of a new bank')
        same(b.P_post, b.P, 'P_post of a new bank')
        for k in ('x', 'P'):
            w = [getattr(b, k + '_prior').copy(), getattr(b, k + '_post').copy()]
            fw = [getattr(q, k).copy() for q in bank]
            getattr(b, k)[...] = 5.
            same(getattr(b, k + '_prior'), w[0], k + '_prior of a new bank after editing its estimate')
            same(getattr(b, k + '_post'), w[1], k + '_post of a new bank after editing its estimate')
            for q, v in zip(bank, fw):
                same(getattr(q, k), v, 'filter of the bank after editing the estimate of the bank')


# ---------------------------------------------------------------- defaults left in place
# attributes that are plain arrays, so that f.F[0, 1] = dt is how users set them
FILLABLE = {'srkf': 'xFH', 'if': 'xH', 'ukf': 'xPQR', 'ckf': 'xPQR', 'hinf': 'xPFQH'}


def gen_implicit(g):
    c = filters.model(g, 4, 3)
    c['kind'] = g.choice(('kf', 'srkf', 'ekf', 'fkf', 'if', 'ukf', 'ckf', 'fls', 'hinf'))
    c['left'] = [k for k in ('x', 'P', 'F', 'Q', 'H', 'R') if g.prob(4)]
    c['fill'] = [k for k in ('x', 'P', 'F', 'Q', 'H', 'R') if g.prob(4)]
    c['hist'] = filters.history(g, c, 1, 4, 1)
    c.update(N=g.int(1, 3), gamma=.01, alpha=g.float(1., 1.4), dt=1.)
    return c


def check_implicit(c, ctx):
    kind, n, m = c['kind'], c['n'], c['m']
    left = set(c['left'])
    if kind in ('if', 'ukf', 'ckf'):
        left.discard('F')
    vals = {'x': c['x0'].reshape(-1, 1), 'P': c['P0'], 'F': c['F'], 'Q': c['Q'], 'H': c['H'], 'R': c['R']}
    dflt = {'x': np.zeros((n, 1)), 'P': np.eye(n), 'F': np.eye(n), 'Q': np.eye(n),
            'H': np.eye(m, n) if kind == 'fls' else np.zeros((m, n)), 'R': np.eye(m)}
    if kind in ('ukf', 'ckf'):
        vals['x'], dflt['x'] = c['x0'], np.zeros(n)
    fs, filled = [], set()
    for explicit in (False, True):
        H = dflt['H'] if 'H' in left else vals['H']
        hx = lambda x, H=H: H.dot(x)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind == 'ukf':
                f = UnscentedKalmanFilter(n, m, 1., hx, lambda x, dt: c['F'].dot(x),
                                          MerweScaledSigmaPoints(n, .5, 2., 1.))
            elif kind == 'ckf':
                f = CubatureKalmanFilter(n, m, 1., hx, lambda x, dt: c['F'].dot(x))
            else:
                f = new(kind, n, m, 0, c)
        for k in ('x', 'P', 'F', 'Q', 'H', 'R'):
            if k in left and not explicit:
                continue
            v = (dflt if k in left else vals)[k].copy()
            if k in ('F', 'H') and kind in ('ukf', 'ckf') or k == 'H' and kind == 'ekf':
                continue
            if kind == 'if' and k in 'PR':
                k, v = {'P': 'P_inv', 'R': 'R_inv'}[k], np.linalg.inv(v)
            elif kind == 'hinf' and k == 'R':
                k = 'V'
                if 'R' in left:
                    v = c['R'].copy()
            if not explicit and k in c['fill'] and k in FILLABLE.get(kind, 'xPFQHR'):
                getattr(f, k)[...] = v      # the default array itself is edited in place
                filled.add(k)
            else:
                setattr(f, k, v)
        if kind == 'hinf' and 'R' in left and not explicit:
            f.V = c['R'].copy()     # zero noise has no inverse: always assigned
        fs.append((f, hx, H))
    for _, z in c['hist']:
        for f, hx, H in fs:
            zz = None if z is None else (z.copy() if kind in ('ukf', 'ckf') else z.reshape(-1, 1).copy())
            if kind == 'fls':
                f.smooth(np.zeros((m, 1)) if zz is None else zz)
            else:
                f.predict()
                if kind == 'ekf':
                    f.update(zz, lambda x, H=H: H, lambda x, H=H: H.dot(x))
                else:
                    f.update(zz)
        a, b = fs[0][0], fs[1][0]
        same(np.asarray(a.x, float), np.asarray(b.x, float), '%s state with %s left at the default, %s filled in place' % (kind, sorted(left), sorted(filled)))
        Pn = 'P_inv' if kind == 'if' else 'P'
        same(np.asarray(getattr(a, Pn), float), np.asarray(getattr(b, Pn), float),
             '%s covariance with %s left at the default' % (kind, sorted(left)))
    ctx.label(kind, *['default ' + k for k in sorted(left)])
    ctx.label(*['filled in place ' + k for k in sorted(filled)])
    ctx.nt(bool(left or filled) and any(z is not None for _, z in c['hist']))


# ---------------------------------------------------------------- inversion function in force
def gen_inv(g):
    c = filters.model(g, 4, 3)
    c['kind'] = g.choice(('kf', 'ukf_merwe', 'enkf'))
    # the others subtract K S K' from P: only a true inverse keeps that valid
    c['fn'] = g.choice(('inv', 'pinv', 'double', 'diagonal') if c['kind'] == 'kf' else ('inv', 'pinv'))
    c['hist'] = filters.history(g, c, 1, 4, 1)
    c['op'] = [g.choice(('update', 'correlated', 'sequential')) for _ in c['hist']]
    c['at'] = g.int(0, 3)
    return c


def check_inv(c, ctx):
    n, m = c['n'], c['m']
    calls = []
    base = {'inv': np.linalg.inv, 'pinv': np.linalg.pinv, 'double': lambda S: 2. * np.linalg.inv(S),
            'diagonal': lambda S: np.diag(1. / np.diag(S))}[c['fn']]

    def fn(S):
        calls.append(np.array(S))
        return base(S)
    if c['kind'] == 'enkf':
        np.random.seed(3)
        f = EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), m, 1., 9, lambda x: c['H'].dot(x),
                                 lambda x, dt: c['F'].dot(x))
        f.Q, f.R = c['Q'], c['R']
        pre, upd = (lambda u: f.predict()), (lambda z: f.update(z))
    else:
        a = filters.A(c['kind'], c)
        f, pre, upd = a.f, a.predict, a.update
    for i, ((u, z), op) in enumerate(zip(c['hist'], c['op'])):
        if i == c['at']:
            f.inv = fn
        pre(u)
        P = np.array(f.P)
        k = len(calls)
        if c['kind'] == 'kf' and op == 'correlated':
            f.update_correlated(None if z is None else lin.shape_x(z, c['layout']))
        else:
            upd(z)
        if z is None:
            continue
        S, SI, K = np.array(f.S), np.array(f.SI), np.array(f.K)
        want = base(S) if i >= c['at'] else np.linalg.inv(S)
        close(SI, want, 'inverse of S as given by the inversion function in force', 1e-9)
        if i >= c['at']:
            require(len(calls) > k, 'the inversion function in force was not used')
        if c['kind'] == 'kf':
            close(K, P.dot(c['H'].T).dot(SI), 'gain from that inverse', 1e-9, scale=np.abs(P.dot(c['H'].T)).max() * np.abs(SI).max())
    ctx.label(c['kind'], c['fn'])
    ctx.nt(bool(calls))


SUBS = [Sub('new', gen, check, quick=1200),
        Sub('implicit', gen_implicit, check_implicit, quick=900),
        Sub('inverse', gen_inv, check_inv, quick=500)]
