"""H-infinity filter: the published minimax recursion."""
import warnings
import numpy as np
from filterpy.hinfinity import HInfinityFilter
from vlib import lin, ref
from vlib.harness import Sub, close, require, same

PROPERTY = 'K14'
RULE = ('Random models, bounds and histories against the published recursion in an independent '
        '(symmetric, inverse-form) derivation, and against the Kalman predictor for bound zero; '
        'non-trivial: at least two real updates with a non-zero measurement matrix.')


def gen(g):
    c = lin.model(g, 4, 3)
    n = c['n']
    c['Qw'] = g.spd(n, 1e-2, 10.) if g.bool() else np.eye(n)
    c['W'] = g.psd(n, 1e-3, 10.)
    c['gamma'] = g.choice([0., 0., .01, .1]) if g.bool() else g.logfloat(1e-4, 1.)
    c['scalar_V'] = g.bool()
    c['ops'] = []
    for _ in range(g.int(1, 9)):
        k = g.choice(['p', 'u', 'u', 'n', 'look', 'set'])
        o = {'op': k}
        if k in ('p', 'look'):
            o['u'] = g.vec(c['u_dim'], 4.) if c['B'] is not None and g.prob(6) else None
        elif k == 'u':
            o['z'] = g.vec(c['m'], 20.)
        elif k == 'set':
            o['a'] = g.choice(['V', 'W', 'H', 'F', 'gamma'])
            o['v'] = {'V': lambda: g.spd(c['m'], 1e-2, 30.), 'W': lambda: g.psd(n, 1e-3, 10.),
                      'H': lambda: g.mat(c['m'], n), 'F': lambda: g.trans(n),
                      'gamma': lambda: g.choice([0., .01, .2])}[o['a']]()
        c['ops'].append(o)
    return c


def make(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = HInfinityFilter(c['n'], c['m'], c['u_dim'], gamma=c['gamma'])
    f.x = lin.shape_x(c['x0'], c['layout'])
    f.P, f.F, f.H, f.W, f.Q = c['P0'].copy(), c['F'], c['H'], c['W'], c['Qw']
    f.V = float(c['R'][0, 0]) if c['m'] == 1 and c['scalar_V'] else c['R']
    if c['B'] is not None:
        f.B = c['B']
    return f


def check(c, ctx):
    f = make(c)
    n = c['n']
    v = {'V': c['R'], 'W': c['W'], 'H': c['H'], 'F': c['F'], 'gamma': c['gamma']}
    x, P = ref.col(c['x0']), c['P0']
    ups = 0
    for o in c['ops']:
        if o['op'] in ('p', 'look'):
            nx = v['F'].dot(x)
            a = []
            if o['u'] is not None:
                a = [lin.shape_x(o['u'], c['layout'])]
                nx = nx + c['B'].dot(ref.col(o['u']))
            if o['op'] == 'look':
                close(f.get_prediction(*a), nx, 'predicted-ahead state', 1e-7,
                      max(1., np.abs(nx).max()), flat=True)
            else:
                f.predict(*a)
                x = nx
        elif o['op'] == 'n':
            f.update(None)
        elif o['op'] == 'set':
            setattr(f, o['a'], o['v'])
            v[o['a']] = o['v']
        else:
            H, V = v['H'], v['V']
            # (P^-1 - gamma Q + H' V^-1 H)^-1 is the posterior the minimax bound allows
            if np.linalg.cond(P) > 1e6:
                ctx.label('singular covariance')
                break
            M = np.linalg.inv(P) - v['gamma'] * c['Qw'] + H.T.dot(np.linalg.solve(V, H))
            w = np.linalg.eigvalsh(ref.sym(M))
            if w.min() < 1e-4 * w.max():
                ctx.label('bound not attainable')
                break
            PL = ref.sym(np.linalg.inv(ref.sym(M)))
            y = ref.col(o['z']) - H.dot(x)
            K = v['F'].dot(PL).dot(H.T).dot(np.linalg.inv(V))
            z = lin.shape_x(o['z'], c['layout'])
            close(f.residual_of(z), y, 'residual', 1e-7, max(1., np.abs(o['z']).max(),
                                                             np.abs(x).max()), flat=True)
            f.update(z)
            x = x + K.dot(y)
            P = ref.sym(v['F'].dot(PL).dot(v['F'].T) + v['W'])
            close(f.K, K, 'gain', 1e-5, 1e-3)
            close(f.y, y, 'innovation', 1e-6, max(1., np.abs(o['z']).max(), np.abs(x).max()),
                  flat=True)
            close(f.z, o['z'], 'recorded measurement', 1e-12, flat=True)
            require(np.abs(f.P - f.P.T).max() <= 1e-12 * np.abs(f.P).max(), 'P not symmetric')
            ups += np.abs(H).max() > 0
        sx = max(1., np.abs(x).max())
        close(f.x, x, 'state after ' + o['op'], 1e-4, sx, flat=True)
        require(np.shape(f.x) == ((n,) if c['layout'] == '1d' else (n, 1)), 'state shape %s',
                np.shape(f.x))
        close(f.P, P, 'covariance after ' + o['op'], 1e-5, 1e-3 * np.abs(c['P0']).max())
        close(f.measurement_of_state(f.x), v['H'].dot(x), 'measurement of state', 1e-5, 10 * sx,
              flat=True)
        close(f.V, v['V'], 'V', 1e-12)
        if np.abs(x).max() > 1e6:
            break
    ctx.label('gamma=0' if c['gamma'] == 0 else 'gamma>0')
    ctx.nt(ups >= 2)


def gen_kf(g):
    c = lin.model(g, 4, 3)
    c['F'] = g.choice([c['F'], np.eye(c['n'])])
    c['Qw'], c['W'], c['gamma'], c['scalar_V'] = np.eye(c['n']), c['Q'], 0., g.bool()
    c['zs'] = [g.vec(c['m'], 20.) for _ in range(g.int(1, 8))]
    return c


def gen_batch(g):
    c = gen(g)
    c['ops'], c['layout'], c['first'] = [], 'col', g.bool()
    c['gamma'] = g.choice([0., .001, .01])
    c['zs'] = [None if g.prob(2) else g.vec(c['m'], 20.) for _ in range(g.int(1, 7))]
    return c


def check_batch(c, ctx):
    """a record in one call is the same as one measurement after the other, missing ones too"""
    a, b = make(c), make(c)
    zs = [None if z is None else z.reshape(-1, 1) for z in c['zs']]
    means, covs = a.batch_filter(list(zs), update_first=c['first'])
    require(means.shape == (len(zs), c['n'], 1) and covs.shape == (len(zs), c['n'], c['n']),
            'results of shapes %s and %s', means.shape, covs.shape)
    for i, z in enumerate(zs):
        if not c['first']:
            b.predict()
        b.update(z)
        if np.abs(b.x).max() > 1e8 or np.abs(b.P).max() > 1e8:
            return
        close(means[i], b.x, 'mean %d of the batch' % i, 1e-9, 1.)
        close(covs[i], b.P, 'covariance %d of the batch' % i, 1e-9, 1e-3)
        if c['first']:
            b.predict()
    close(a.x, b.x, 'state after the batch', 1e-9, 1.)
    close(a.P, b.P, 'covariance after the batch', 1e-9, 1e-3)
    ctx.label('missing' if any(z is None for z in zs) else 'complete')
    ctx.nt(len(zs) >= 2)


def check_kf(c, ctx):
    """no bound: covariances of the one-step Kalman predictor; static states: its estimates too"""
    f = make(c)
    static = np.array_equal(c['F'], np.eye(c['n']))
    x, P = ref.col(c['x0']), c['P0']
    for z in c['zs']:
        f.update(lin.shape_x(z, c['layout']))
        x, P, _, _, _ = ref.kf_update(x, P, z, c['H'], c['R'])
        x, P = ref.kf_predict(x, P, c['F'], c['Q'])
        if np.linalg.cond(P) > 1e6:
            break
        close(f.P, P, 'covariance vs Kalman predictor', 1e-4, 1e-3 * np.abs(c['P0']).max())
        if static:
            close(f.x, x, 'state vs Kalman filter', 1e-4, max(1., np.abs(x).max()), flat=True)
            f.predict()
    ctx.label('static' if static else 'dynamic')
    ctx.nt(len(c['zs']) >= 2)


SUBS = [Sub('recursion', gen, check, 1500), Sub('kalman', gen_kf, check_kf, 700),
        Sub('batch', gen_batch, check_batch, 400)]
