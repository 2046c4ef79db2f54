"""Ensemble Kalman filter: members move by the sample-covariance gain, noise has the given covariance."""
import numpy as np
from filterpy.kalman import EnsembleKalmanFilter
from vlib import lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'N05'
RULE = ('Random models, ensemble sizes, noise overrides and histories under a seeded random source; '
        'gain, innovation covariance, mean and covariance are recomputed from the ensemble before '
        'each step, the noise each member received is recovered and tested (large ensembles: '
        'whitened mean and covariance within 7 standard errors), and linear runs of large ensembles '
        'are compared with the Kalman filter; non-trivial: at least one update with a non-zero gain.')


def gen(g, big=False):
    n, m = g.dim(1, 3, 6), g.dim(1, 2, 5)
    c = {'n': n, 'm': m, 'N': g.choice([1500, 3000]) if big else g.int(2, 30),
         'seed': g.int(0, 10 ** 6), 'x0': g.vec(n, 4.), 'P0': g.spd(n, 1e-2, 10.),
         'Q': g.spd(n, 1e-2, 2.), 'R': g.spd(m, 1e-2, 10.), 'F': g.trans(n), 'H': g.mat(m, n),
         's': g.choice([0., 0., .5]), 'dt': g.choice([1., .1]), 'reinit': g.prob(2), 'ops': []}
    for _ in range(g.int(1, 2 if big else 6)):
        k = g.choice(['predict', 'update', 'predict', 'update', 'set'])
        o = {'op': k}
        if k == 'update':
            o['z'] = None if g.prob(1) else g.vec(m, 6.)
            o['list'] = g.bool()
            o['R'] = [None, g.spd(m, 1e-2, 10.), g.logfloat(1e-2, 10.), 0.][
                g.choice([0, 0, 0, 1, 1, 2, 2] + ([] if big else [3]))]
        if k == 'set':
            o['w'] = g.choice(['Q', 'R'])
            o['v'] = g.spd(n, 1e-2, 2.) if o['w'] == 'Q' else g.spd(m, 1e-2, 10.)
            if o['w'] == 'Q' and not big and g.prob(4):     # no noise on some states, or at all
                o['v'] = np.diag([g.choice([0., 0., .5]) for _ in range(n)])
        c['ops'].append(o)
    if big:
        c['ops'] = c['ops'][:1] + [{'op': 'update', 'z': g.vec(m, 6.), 'list': False,
                                    'R': g.spd(m, 1e-2, 10.) if g.bool() else None}]
    return c


def white(e, C, what, ctx):
    """e are draws of N(0, C): whitened mean and covariance within 7 standard errors"""
    N = len(e)
    w, v = np.linalg.eigh(C)
    u = e.dot(v) / np.sqrt(w)
    b = 7. / np.sqrt(N)
    require(np.all(np.abs(u.mean(axis=0)) <= b), '%s: whitened mean %r of %d draws is not zero', what,
            u.mean(axis=0).tolist(), N)
    s = u.T.dot(u) / N
    require(np.all(np.abs(s - np.eye(len(w))) <= b * np.sqrt(2.)),
            '%s: whitened covariance %r of %d draws is not the identity', what, s.tolist(), N)


def make(c, ctx):
    F, H = c['F'], c['H']

    def fx(x, dt):
        return F.dot(x) + c['s'] * dt * np.sin(x)

    def hx(x):
        return H.dot(x) + c['s'] * np.cos(H.dot(x))

    np.random.seed(c['seed'])
    f = EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), c['m'], c['dt'], c['N'], hx, fx)
    if c['reinit']:
        f.initialize(c['x0'] + 1., 2. * c['P0'])
    f.Q, f.R = c['Q'].copy(), c['R'].copy()
    return f, fx, hx


def check(c, ctx):
    n, m, N = c['n'], c['m'], c['N']
    f, fx, hx = make(c, ctx)
    x0, P0 = (c['x0'] + 1., 2. * c['P0']) if c['reinit'] else (c['x0'], c['P0'])
    same(f.x, x0, 'initial state')
    same(f.P, P0, 'initial covariance')
    require(np.shape(f.sigmas) == (N, n), 'ensemble shape %s', np.shape(f.sigmas))
    if N >= 1000:
        white(f.sigmas - x0, P0, 'initial ensemble', ctx)
    done = False
    for o in c['ops']:
        s0, P = np.array(f.sigmas), np.array(f.P)
        if o['op'] == 'set':
            setattr(f, o['w'], o['v'].copy())
            continue
        if o['op'] == 'predict':
            f.predict()
            s1 = np.array(f.sigmas)
            moved = np.array([fx(v, c['dt']) for v in s0])
            if N >= 1000:
                white(s1 - moved, f.Q, 'process noise', ctx)
            x = s1.sum(axis=0) / N
            P = (s1 - x).T.dot(s1 - x) / (N - 1)
            sc = max(1., np.abs(s1).max())
            close(f.x, x, 'state after the prediction', 1e-10, sc)
            close(f.P, P, 'covariance after the prediction', 1e-9, sc ** 2)
            close(f.x_prior, x, 'recorded prior', 1e-10, sc)
            close(f.P_prior, P, 'recorded prior covariance', 1e-9, sc ** 2)
            d = s1 - moved
            # every member has its own draw (a coincidence has probability zero)
            still = np.diag(f.Q) == 0
            if np.any(still):
                close(d[:, still], np.zeros((N, still.sum())), 'noise on states that have none', 1e-7, sc)
                ctx.label('no noise on some states')
            if not np.all(still):
                require(len(np.unique(d, axis=0)) == N, 'members share their process noise')
            continue
        if o['z'] is None:
            f.update(None)
            same(f.sigmas, s0, 'ensemble after a missing measurement')
            continue
        # the mean in use by the update: after construction the given one, afterwards the sample's
        x = np.array(f.x)
        R = f.R if o['R'] is None else lin.full(o['R'], m)
        h = np.array([hx(v) for v in s0])
        zm = h.sum(axis=0) / N
        S = (h - zm).T.dot(h - zm) / (N - 1) + R
        C = (s0 - x).T.dot(h - zm) / (N - 1)
        if o['R'] is not None and np.ndim(o['R']) == 0 and o['R'] == 0 and not (
                np.linalg.cond(S) < 1e6 and np.abs(S).max() > 1e-6):
            ctx.label('ended: innovation covariance singular')
            break
        K = np.linalg.solve(S, C.T).T
        z = [float(v) for v in o['z']] if o['list'] else o['z'].copy()
        if o['R'] is None:
            f.update(z)
        else:
            f.update(z, R=o['R'])
        s1 = np.array(f.sigmas)
        cond = max(1., np.linalg.cond(S))
        sc = max(1., np.abs(s0).max(), np.abs(h).max(), np.abs(s1).max())
        close(f.S, S, 'innovation covariance', 1e-9, sc ** 2)
        close(f.K, K, 'gain', 1e-9 * cond, sc ** 2)
        x1 = s1.sum(axis=0) / N
        close(f.x, x1, 'state after the update', 1e-10, sc)
        eP = P - K.dot(S).dot(K.T)
        ks = max(1., np.abs(K).max())
        close(f.P, eP, 'covariance after the update', 1e-9 * cond, sc ** 2 * ks)
        close(f.x_post, x1, 'recorded posterior', 1e-10, sc)
        close(f.P_post, eP, 'recorded posterior covariance', 1e-9 * cond, sc ** 2 * ks)
        close(np.array(f.z, dtype=float), o['z'], 'recorded measurement', 1e-12, flat=True)
        move = s1 - s0 - (np.asarray(o['z']) - h).dot(K.T)      # = e K'
        q, _ = np.linalg.qr(K)
        if np.linalg.matrix_rank(K, 1e-6) == min(n, m):
            if n > m:
                rest = move - move.dot(q).dot(q.T)
                close(rest, np.zeros(rest.shape), 'part of the move outside the gain\'s range', 1e-8 *
                      cond, sc * ks)
            if m <= n and np.linalg.cond(K) < 1e3 and np.abs(K).max() > 1e-4:
                e = move.dot(np.linalg.pinv(K).T)
                if np.any(R):
                    require(len(np.unique(e, axis=0)) == N, 'members share their measurement noise')
                else:
                    close(e, np.zeros(e.shape), 'measurement noise where there is none', 1e-6 * cond, sc * ks)
                if N >= 1000:
                    white(e, R, 'measurement noise', ctx)
            elif N >= 1000 and np.abs(K).max() > 1e-4 and np.linalg.cond(K.dot(R).dot(K.T)) < 1e6:
                white(move, ref.sym(K.dot(R).dot(K.T)), 'noise in the move', ctx)
        done = done or np.abs(K).max() > 1e-6
        ctx.label('update', 'R given' if o['R'] is not None else '')
    ctx.label('nonlinear' if c['s'] else 'linear', 'large' if N >= 1000 else 'small')
    ctx.nt(done)


def gen_limit(g):
    c = gen(g)
    c.update(N=6000, s=0., reinit=False)
    c['ops'] = [{'z': g.vec(c['m'], 4.)} for _ in range(g.int(1, 3))]
    return c


def check_limit(c, ctx):
    f, _, _ = make(c, ctx)
    x, P = ref.col(c['x0']), c['P0']
    for o in c['ops']:
        x, P = ref.kf_predict(x, P, c['F'], c['Q'])
        f.predict()
        x, P, y, S, K = ref.kf_update(x, P, o['z'], c['H'], c['R'])
        f.update(o['z'].copy())
        # errors of a few standard errors of the ensemble, amplified by the innovation
        d = 1. + ref.maha(y, S)
        L = np.linalg.cholesky(ref.sym(P))
        e = np.linalg.solve(L, np.ravel(f.x) - x.ravel())
        # prior spread in units of the posterior spread
        a = np.sqrt(max(1., np.linalg.eigvalsh(np.linalg.solve(L, np.linalg.solve(
            L, P + K.dot(S).dot(K.T)).T)).max()))
        b = 12. * d * a ** 2 / np.sqrt(c['N']) * len(c['ops'])
        require(np.abs(e).max() <= b, 'state %r, Kalman filter %r (whitened difference %r > %r)',
                np.ravel(f.x).tolist(), x.ravel().tolist(), e.tolist(), b)
        W = np.linalg.solve(L, np.linalg.solve(L, np.array(f.P)).T)
        b = 12. * a ** 2 / np.sqrt(c['N']) * len(c['ops'])
        require(np.abs(W - np.eye(c['n'])).max() <= b,
                'covariance %r, Kalman filter %r (whitened %r)', f.P.tolist(), P.tolist(), W.tolist())
        ctx.nt(np.abs(K).max() > 1e-3)
        ctx.label('bound<0.5' if b < .5 else 'bound loose')


def gen_pooled(g):
    n = g.int(1, 2)
    return {'n': n, 'N': g.int(2, 4), 'seed': g.int(0, 10 ** 6), 'x0': g.vec(n, 4.),
            'P0': g.spd(n, 1e-1, 4.), 'Q': g.spd(n, 1e-1, 2.), 'R': g.spd(n, 1e-1, 4.),
            'z': g.vec(n, 4.), 'Ru': g.spd(n, 1e-1, 4.) if g.bool() else None, 'twice': g.bool()}


def check_pooled(c, ctx):
    """tiny ensembles, many times: the draws of the members of one ensemble are independent too, so
    that also their average over the ensemble varies as it should"""
    n, N, runs = c['n'], c['N'], 300
    np.random.seed(c['seed'])
    start, move, noise = [], [], []
    R = c['R'] if c['Ru'] is None else c['Ru']
    for _ in range(runs):
        f = EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), n, 1., N, lambda x: x,
                                 lambda x, dt: x)
        f.Q, f.R = c['Q'], c['R']
        start.append(np.array(f.sigmas) - c['x0'])
        s = np.array(f.sigmas)
        f.predict()
        move.append(np.array(f.sigmas) - s)
        if c['twice']:
            s = np.array(f.sigmas)
            f.predict()
            move.append(np.array(f.sigmas) - s)
        s = np.array(f.sigmas)
        if c['Ru'] is None:
            f.update(c['z'])
        else:
            f.update(c['z'], R=c['Ru'])
        K = np.array(f.K)
        if np.linalg.cond(K) < 1e4 and np.abs(K).max() > 1e-4:
            noise.append(np.linalg.solve(K, (np.array(f.sigmas) - s).T).T - (c['z'] - s))
    for what, e, C in (('initial ensemble', start, c['P0']), ('process noise', move, c['Q']),
                       ('measurement noise', noise, R)):
        if len(e) < 200:
            ctx.label('few usable gains')
            continue
        e = np.array(e)
        white(e.reshape(-1, n), C, what + ' in ensembles of %d' % N, ctx)
        white(e.mean(axis=1) * np.sqrt(N), C, what + ', average over ensembles of %d' % N, ctx)
        white((e[:, 0] - e[:, 1]) / np.sqrt(2.), C, what + ', difference of two members', ctx)
        ctx.nt()
    ctx.label('N=%d' % N)


SUBS = [Sub('histories', gen, check, 800), Sub('noise', lambda g: gen(g, True), check, 60, 1500),
        Sub('pooled', gen_pooled, check_pooled, 25, 400),
        Sub('limit', gen_limit, check_limit, 40, 1000)]
