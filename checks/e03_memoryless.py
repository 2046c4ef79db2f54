"""What an estimator does next depends only on its current estimate and settings."""
import warnings
import numpy as np
from filterpy import gh, kalman, leastsq, memory
from filterpy.hinfinity import HInfinityFilter
from vlib import filters, lin
from vlib.harness import Sub, close, require

PROPERTY = 'E03'
RULE = ('Random histories on every estimator; then a new object is given the current estimate and '
        'settings (or the old one is given those of a new problem, in random order, anew, or by '
        'editing its arrays in place) and both continue with the same data; non-trivial: a real '
        'measurement before and after the hand-over.')

# the estimate and the settings of each class
STATE = {'if': ('x', 'P_inv')}
SET = {'kf': 'FQHRB', 'fkf': 'FQHRB', 'srkf': 'FQHRB', 'ekf': 'FQRB', 'if': ('F', 'Q', 'H', 'R_inv', 'B'),
       'ckf': 'QR', 'enkf': 'QR', 'hinf': 'FQHVW', 'fls': 'FQHR', 'imm': (), 'mmae': ()}
WHO = list(filters.ALL) + ['imm', 'mmae', 'enkf', 'hinf', 'fls', 'gh', 'ghk', 'order', 'memory']
OUT = ('x', 'P', 'P_inv', 'x_prior', 'P_prior', 'x_post', 'P_post', 'K', 'S', 'y', 'z',
       'log_likelihood', 'likelihood', 'mahalanobis', 'mu', 'p', 'dx', 'ddx')


def make(c, who):
    o = filters.A(who, c) if who in filters.ALL else filters.W(who, c)
    if who in ('kf', 'ekf', 'srkf', 'fkf', 'if', 'ukf_merwe'):
        # the reciprocal condition of what is compared must not depend on the history
        o.f.compute_log_likelihood = True
    return o


def step(o, uz, first=None):
    o.predict(uz[0])
    o.update(uz[1])


def settings(who):
    return tuple(SET['ckf'] if who.startswith('ukf') else SET.get(who, ()))


def seen(f):
    out = {}
    for k in OUT:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                v = getattr(f, k)
            except (AttributeError, np.linalg.LinAlgError):
                continue
        if v is None or callable(v):
            continue
        v = np.array(v, dtype=object).ravel()
        if any(t is None for t in v):
            continue
        out[k] = np.array(v, dtype=float)
    return out


def compare(a, b, what, tol=1e-8, skip=()):
    x, y = seen(a), seen(b)
    require(set(x) == set(y), '%s: attributes %s against %s', what, sorted(x), sorted(y))
    sx = max(1., np.abs(y['x']).max()) if y['x'].size and np.all(np.isfinite(y['x'])) else 1.
    for k in y:
        if k in skip or not np.all(np.isfinite(y[k])):
            continue
        s = sx if k in ('y', 'x', 'x_prior', 'x_post', 'z', 'dx', 'ddx') else \
            1. if k in ('log_likelihood', 'mahalanobis', 'mu', 'p') else 0.
        if k == 'K':
            s = 1e-3
        close(x[k], y[k], '%s: %s' % (what, k), tol, s)


# what describes the latest real update, which may lie before the hand-over
LATEST = ('K', 'S', 'y', 'z', 'log_likelihood', 'likelihood', 'mahalanobis')


def tame(f):
    x = np.asarray(f.x, dtype=float)
    P = np.asarray(getattr(f, 'P', 0.), dtype=float)
    return np.all(np.isfinite(x)) and np.abs(x).max() < 1e6 and np.all(np.isfinite(P)) and \
        np.abs(P).max() < 1e7


def base(g):
    c = filters.model(g, 3, 2)
    c['who'] = g.choice(WHO)
    c['order'], c['scalar'], c['seed'] = g.int(0, 2), g.bool(), g.int(0, 999)
    c['alpha'] = g.choice([1., 1.1])
    c['pre'] = filters.history(g, c, 1, g.choice([4, 4, 4, 30]), 1)
    c['post'] = filters.history(g, c, 1, 5, 1)
    return c


# ---------------------------------------------------------------- a new object takes over
def handover(new, old, who):
    """give `new` the estimate of `old`"""
    if who in ('imm', 'mmae'):
        for a, b in zip(new.filters, old.filters):
            a.x, a.P = np.array(b.x), np.array(b.P)
        if who == 'mmae':
            new.p = np.array(old.p)
        return
    if who in ('gh', 'ghk', 'order', 'memory', 'lsq'):
        for k in ('x', 'dx', 'ddx'):
            if hasattr(old, k):
                v = getattr(old, k)
                setattr(new, k, np.array(v) if isinstance(v, np.ndarray) else v)
        return
    if who == 'enkf':
        new.sigmas = np.array(old.sigmas)
    for k in STATE.get(who, ('x', 'P')):
        setattr(new, k, np.array(getattr(old, k)))


def check_takeover(c, ctx):
    who = c['who']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = make(c, who)
        for uz in c['pre']:
            step(old, uz)
            if not tame(old.f):
                return
        if who == 'imm':
            fs = [filters.A('kf', dict(c, Q=c['Q'] * (i + 1.))).f for i in range(2)]
            handover(type('T', (), {'filters': fs}), old.f, who)
            new = filters.W(who, c)
            new.f = kalman.IMMEstimator(fs, np.array(old.f.mu), np.array(old.f.M))
        else:
            new = make(c, who)
            handover(new.f, old.f, who)
        real = False
        for i, uz in enumerate(c['post']):
            step(old, uz)
            step(new, uz)
            real = real or uz[1] is not None
            if not tame(old.f):
                break
            # the smoother's gains come from its filter; what it keeps differs by intent
            compare(new.f, old.f, '%s taken over, step %d' % (who, i),
                    1e-6 if who in ('srkf', 'if') else 1e-8, () if real else LATEST)
    ctx.label(who, 'long' if len(c['pre']) > 8 else 'short')
    ctx.nt(any(z is not None for _, z in c['pre']) and any(z is not None for _, z in c['post']))


# ---------------------------------------------------------------- the old object is set anew
def gen_anew(g):
    c = base(g)
    while c['who'] not in SET and not c['who'].startswith('ukf'):
        c['who'] = g.choice([w for w in WHO if w in SET])
    if c['who'] in ('imm', 'mmae'):
        c['who'] = 'kf'
    d = filters.model(g, 3, 2)
    n, m, du = c['n'], c['m'], c['u_dim']
    new = {'x0': g.vec(n), 'P0': g.spd(n), 'F': np.eye(n) + .3 * np.triu(g.mat(n, n), 1),
           'Q': g.spd(n, 1e-3, 10.), 'H': g.mat(m, n), 'R': g.spd(m, 1e-2, 30.)}
    if c['B'] is not None:
        new['B'] = g.mat(n, du)
    # which settings change; the others keep their values
    for k in ('F', 'Q', 'H', 'R', 'B'):
        if k in new and g.prob(4):
            new[k] = c[k]
    c['new'] = new
    names = list(STATE.get(c['who'], ('x', 'P'))) + list(settings(c['who']))
    c['seq'] = [names[i] for i in g.perm(len(names))]
    c['how'] = [g.choice(['new', 'inplace', 'twice', 'same']) for _ in names]
    return c


def value(c, k, layout):
    if k == 'x':
        return lin.shape_x(c['x0'], layout)
    if k == 'W':
        return c['Q'] * .1
    if k == 'V':
        return c['R'].copy()
    if k in ('P_inv', 'R_inv'):
        return np.linalg.inv(c['P0' if k[0] == 'P' else 'R'])
    return np.array(c['P0' if k == 'P' else k], dtype=float)


def assign(f, k, v, how, who):
    now = getattr(f, k)
    if how == 'inplace' and isinstance(now, np.ndarray) and now.shape == v.shape and \
            now.dtype.kind == 'f' and not (who == 'srkf' and k in 'PQR'):
        now[...] = v
        return
    if how == 'twice':
        setattr(f, k, v * 2. + (1. if k == 'x' else 0.))
    setattr(f, k, v)
    if how == 'same':
        setattr(f, k, getattr(f, k))


def check_anew(c, ctx):
    who = c['who']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = make(c, who)
        for uz in c['pre']:
            step(old, uz)
            if not tame(old.f):
                return
        d = dict(c)
        d.update(c['new'])
        new = make(d, who)
        lay = c['layout'] if who in filters.COLUMN else 'col' if who in ('hinf', 'fls') else '1d'
        for k, how in zip(c['seq'], c['how']):
            if k == 'B' and c['B'] is None:
                continue
            if who == 'enkf' and k in 'xP':
                continue
            assign(old.f, k, value(d, k, lay), how, who)
            ctx.label(how)
        if who == 'enkf':
            old.f.initialize(d['x0'].copy(), d['P0'].copy())
            new.f.initialize(d['x0'].copy(), d['P0'].copy())
            new.f.sigmas = old.f.sigmas.copy()
        # models given as functions
        for o in (old, new):
            o.c = d
            if hasattr(o, 'given'):
                o.given.update(F=d['F'], H=d['H'], B=d.get('B'))
        real = False
        for i, uz in enumerate(c['post']):
            step(old, uz)
            step(new, uz)
            real = real or uz[1] is not None
            if not tame(new.f):
                break
            compare(old.f, new.f, '%s set anew, step %d' % (who, i),
                    1e-6 if who in ('srkf', 'if') else 1e-8, () if real else LATEST)
    ctx.label(who)
    ctx.nt(any(z is not None for _, z in c['pre']) and any(z is not None for _, z in c['post']))


# ---------------------------------------------------------------- scalar parameters and user functions
PAR = {'gh': ('dt', 'g', 'h'), 'ghk': ('dt', 'g', 'h', 'k'), 'order': ('dt', 'g', 'h', 'k'),
       'memory': ('dt', 'beta'), 'lsq': ('dt',), 'hinf': ('gamma',), 'kf': ('alpha',), 'fkf': ('alpha_sq',),
       'enkf': ('dt', 'fx', 'hx'), 'ckf': ('fx', 'hx'), 'ukf_merwe': ('fx', 'hx'), 'ukf_simplex': ('fx', 'hx')}


def gen_par(g):
    c = base(g)
    c['who'] = g.choice(sorted(PAR))
    draw = {'dt': lambda: g.choice([.25, .5, 1., 2., 3.]), 'g': lambda: g.choice([0., .125, .5, .9, 1.]),
            'h': lambda: g.choice([0., .1, .25, .5]), 'k': lambda: g.choice([0., .05, .1, .25]),
            'beta': lambda: g.choice([.25, .5, .8, .9]), 'gamma': lambda: g.choice([0., 1e-3, 1e-2]),
            'alpha': lambda: g.choice([1., 1.05, 1.2]), 'alpha_sq': lambda: g.choice([1., 1.1, 1.4]),
            'fx': lambda: g.int(0, 2), 'hx': lambda: g.int(0, 2)}
    c['par'] = [{k: draw[k]() for k in PAR[c['who']]} for _ in range(g.int(2, 3))]
    c['seq'] = g.perm(len(PAR[c['who']]))
    return c


def user(c, k, v):
    """one of three motion or measurement functions"""
    F, H, n, m = c['F'], c['H'], c['n'], c['m']
    if k == 'fx':
        return [lambda x, dt: F.dot(x), lambda x, dt: x + dt * .1 * F.dot(x), lambda x, dt: .5 * x + .1 * np.sin(x)][v]
    return [lambda x: H.dot(x), lambda x: np.resize(x, m) * .5, lambda x: H.dot(x) + .1 * np.cos(np.resize(x, m))][v]


def with_par(c, par):
    """an estimator made with these parameters"""
    who = c['who']
    n, m, o = c['n'], c['m'], c['order']
    p = dict((k, user(c, k, v) if k in ('fx', 'hx') else v) for k, v in par.items())
    w = object.__new__(filters.W)
    w.c, w.who = c, who
    v = c['x0'].copy() if not c['scalar'] else float(c['x0'][0])
    if who == 'gh':
        w.f = gh.GHFilter(v, v, p['dt'], p['g'], p['h'])
    elif who == 'ghk':
        w.f = gh.GHKFilter(v, v, v, p['dt'], p['g'], p['h'], p['k'])
    elif who == 'order':
        w.f = gh.GHFilterOrder(np.arange(1., o + 2), p['dt'], o, p['g'], p['h'], p['k'])
    elif who == 'memory':
        w.f = memory.FadingMemoryFilter(np.arange(1., o + 2), p['dt'], o, p['beta'])
    elif who == 'lsq':
        w.f = leastsq.LeastSquaresFilter(p['dt'], o, 2.)
    elif who == 'hinf':
        w = filters.W(who, c)
        f = HInfinityFilter(n, m, 0, p['gamma'])
        for k in 'xPFHQWV':
            setattr(f, k, getattr(w.f, k))
        w.f = f
    elif who in ('kf', 'fkf'):
        w = filters.A(who, dict(c, alpha=1.))
        if who == 'fkf':
            w = filters.A(who, dict(c, alpha=p['alpha_sq'] ** .5))
        else:
            w.f.alpha = p['alpha']
    else:
        if who == 'enkf':
            np.random.seed(c['seed'])
            w.f = kalman.EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), m, p['dt'], 6, p['hx'], p['fx'])
        elif who == 'ckf':
            w.f = kalman.CubatureKalmanFilter(n, m, 1., p['hx'], p['fx'])
        else:
            pts = kalman.SimplexSigmaPoints(n) if who == 'ukf_simplex' else \
                kalman.MerweScaledSigmaPoints(n, .5, 2., 1.)
            w.f = kalman.UnscentedKalmanFilter(n, m, 1., p['hx'], p['fx'], pts)
        f = w.f
        if who != 'enkf':
            f.x, f.P = c['x0'].copy(), c['P0'].copy()
        f.Q, f.R = c['Q'].copy(), c['R'].copy()
    return w


class Plain(object):
    """predict and update with nothing given"""

    def __init__(self, w):
        self.w, self.f = w, w.f

    def predict(self, u=None):
        if self.w.who in ('ckf', 'ukf_merwe', 'ukf_simplex'):
            self.f.predict()
        else:
            self.w.predict(None)

    def update(self, z):
        if self.w.who in ('ckf', 'ukf_merwe', 'ukf_simplex'):
            self.f.update(z)
        else:
            self.w.update(z)


def plain(w):
    return w if isinstance(w, filters.A) else Plain(w)


def check_par(c, ctx):
    who = c['who']
    real = False
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = plain(with_par(c, c['par'][0]))
        for j, par in enumerate(c['par'][1:]):
            for uz in c['pre'] if j == 0 else c['post']:
                step(old, uz)
            if not tame(old.f):
                return
            try:
                new = plain(with_par(c, par))
            except np.linalg.LinAlgError:
                return
            handover(new.f, old.f, who)
            if who == 'lsq':
                new.f.n = old.f.n
            names = PAR[who]
            for i in c['seq']:
                k = names[i]
                setattr(old.f, k, user(c, k, par[k]) if k in ('fx', 'hx') else par[k])
            got = False
            for i, uz in enumerate(c['post']):
                step(old, uz)
                step(new, uz)
                got = got or uz[1] is not None
                if not tame(new.f):
                    return
                compare(old.f, new.f, '%s with %s, step %d' % (who, par, i), 1e-8,
                        # computed when a FadingMemoryFilter is made, from the parameters it had then
                        (() if got else LATEST) + (('P',) if who == 'memory' else ()))
            real = real or got
    ctx.label(who)
    ctx.nt(real and any(a != b for a, b in zip(c['par'], c['par'][1:])))


SUBS = [Sub('parameters', gen_par, check_par, 2500), Sub('takeover', base, check_takeover, 1600), Sub('anew', gen_anew, check_anew, 1600)]
