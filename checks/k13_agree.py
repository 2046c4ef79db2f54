"""All filters that can run a linear model agree with each other and with the reference."""
import warnings
import numpy as np
from filterpy.kalman import InformationFilter, SquareRootKalmanFilter
from vlib import filters, lin, ref
from vlib.harness import Sub, close, require

PROPERTY = 'K13'
RULE = ('Random linear models whose matrices may change during the run, run on nine filter classes in '
        'step (the column filters also on non-alternating histories) plus square-root factors, '
        'information matrices and starts without information; non-trivial: a control, a matrix '
        'change or a second measurement in the history.')


def gen(g, alternate=True):
    c = filters.model(g, 4, 3)
    c['alpha'] = 1.
    ops = []
    for i in range(g.int(1, 10)):
        if g.prob(2):
            a = g.choice(['F', 'Q', 'H', 'R', 'x', 'P'])
            v = {'Q': lambda: g.spd(c['n'], 1e-3, 10.), 'H': lambda: g.mat(c['m'], c['n']),
                 'R': lambda: g.spd(c['m'], 1e-2, 30.), 'x': lambda: g.vec(c['n']),
                 'P': lambda: g.spd(c['n']),
                 'F': lambda: np.eye(c['n']) + .4 * np.triu(g.mat(c['n'], c['n']), 1)}[a]()
            if a in 'xP' and alternate:     # the sigma filters: before a predict only
                ops.append({'op': 'set', 'a': a, 'v': v, 'inplace': g.bool()})
                ops.append({'op': 'predict', 'u': None})
                ops.append({'op': 'update', 'z': g.vec(c['m'], 20.), 'R': None})
                continue
            ops.append({'op': 'set', 'a': a, 'v': v, 'inplace': g.bool()})
        if alternate or g.bool():
            ops.append({'op': 'predict',
                        'u': g.vec(c['u_dim'], 4.) if c['B'] is not None and g.prob(6) else None})
        if alternate or g.bool():
            ops.append({'op': 'update', 'z': None if g.prob(1) else g.vec(c['m'], 20.),
                        'R': g.spd(c['m'], 1e-2, 30.) if g.prob(2) else
                        g.logfloat(1e-2, 30.) if g.prob(1) else None})
    c['ops'] = ops
    return c


def set_(a, name, v, inplace=False):
    """assign a matrix on whatever the class calls it; inplace: the array handed over earlier is
    edited by its owner and assigned again"""
    f, k = a.f, a.kind
    inv = k == 'if' and name in 'RP'
    key = name + '_inv' if inv else name
    v = np.linalg.inv(v) if inv else v
    if inplace and name != 'x':
        a.given[key][...] = v
    else:
        a.given[key] = v.copy()
    if name == 'x':
        f.x = lin.shape_x(v, a.c['layout'] if k in filters.COLUMN else '1d')
    elif name in 'FH' and k not in filters.COLUMN:
        pass                             # the callbacks read a.given
    elif name == 'H' and k == 'ekf':
        pass
    else:
        setattr(f, key, a.given[key])


def update(a, z, R):
    if z is None or R is None:
        return a.update(z)
    f, k = a.f, a.kind
    zz = a.zarg(z)
    if k == 'if':
        f.update(zz, R_inv=np.linalg.inv(R) if np.ndim(R) else 1. / R)
    elif k == 'srkf':
        f.update(zz, R2=np.linalg.cholesky(R) if np.ndim(R) else np.sqrt(R))
    elif k == 'ekf':
        f.update(zz, a.jac, a.hx, R=R)
    else:
        f.update(zz, R=R)


def run(c, ctx, kinds):
    fs = [filters.A(k, c) for k in kinds]
    x, P = ref.col(c['x0']), c['P0']
    F, Q, H, R0 = c['F'], c['Q'], c['H'], c['R']
    seen = set()
    for o in c['ops']:
        if o['op'] == 'set':
            for a in fs:
                set_(a, o['a'], o['v'], o['inplace'])
            if o['a'] == 'x':
                x = ref.col(o['v'])
            elif o['a'] == 'P':
                P = o['v']
            elif o['a'] == 'F':
                F = o['v']
            elif o['a'] == 'Q':
                Q = o['v']
            elif o['a'] == 'H':
                H = o['v']
            else:
                R0 = o['v']
            seen.add('set')
        elif o['op'] == 'predict':
            for a in fs:
                a.predict(o['u'])
            x, P = ref.kf_predict(x, P, F, Q, None if o['u'] is None else c['B'].dot(o['u']))
            if o['u'] is not None:
                seen.add('u')
        else:
            for a in fs:
                update(a, o['z'], o['R'])
            if o['z'] is not None:
                R = R0 if o['R'] is None else lin.full(o['R'], c['m'])
                x, P, y, S, K = ref.kf_update(x, P, o['z'], H, R)
                seen.add('z2' if 'z1' in seen else 'z1')
                for a in fs:
                    sy = max(1., np.abs(x).max(), np.abs(o['z']).max())
                    close(a.f.y, y, a.kind + ' innovation', 1e-5, sy, flat=True)
                    close(a.f.K, K, a.kind + ' gain', 1e-5, 1e-1)
                    close(a.f.S, S, a.kind + ' innovation covariance', 1e-5)
        sx = max(1., np.abs(x).max())
        sp = 1e-2 * max(np.abs(c['P0']).max(), np.abs(P).max())
        for a in fs:
            close(a.x(), x.ravel(), '%s state after %s' % (a.kind, o['op']), 1e-5, sx)
            close(a.P(), P, '%s covariance after %s' % (a.kind, o['op']), 1e-5, sp)
            if a.kind == 'if':
                close(a.f.P_inv, np.linalg.inv(P), 'information matrix', 1e-4)
            if a.kind == 'srkf':
                close(a.f.P1_2.dot(a.f.P1_2.T), P, 'square-root factor', 1e-5, sp)
    ctx.label(*sorted(seen))
    ctx.nt(bool(seen & {'set', 'u', 'z2'}))


def check_all(c, ctx):
    run(c, ctx, filters.ALL)


def check_free(c, ctx):
    run(c, ctx, filters.COLUMN)


def gen_roots(g):
    n, m = g.int(1, 4), g.int(1, 3)
    return {'n': n, 'm': m, 'P': g.spd(n), 'Q': g.spd(n, 1e-3, 10.), 'R': g.spd(m),
            'F': g.trans(n), 'H': g.mat(m, n), 'x0': g.vec(n), 'z': g.vec(m, 20.),
            'seq': [g.choice(['p', 'u', 'n']) for _ in range(g.int(0, 5))]}


def check_roots(c, ctx):
    f = SquareRootKalmanFilter(c['n'], c['m'])
    f.x = c['x0'].copy()
    f.P, f.Q, f.R, f.F, f.H = c['P'], c['Q'], c['R'], c['F'], c['H']
    for name, M in (('P', c['P']), ('Q', c['Q']), ('R', c['R'])):
        r = getattr(f, name + '1_2')
        close(r, np.linalg.cholesky(M), 'factor of ' + name, 1e-8)
        close(getattr(f, name), M, name + ' reads back', 1e-9)
    x, P = ref.col(c['x0']), c['P']
    for s in c['seq']:
        if s == 'p':
            f.predict()
            x, P = ref.kf_predict(x, P, c['F'], c['Q'])
        else:
            f.update(c['z'] if s == 'u' else None)
            if s == 'u':
                x, P, y, S, K = ref.kf_update(x, P, c['z'], c['H'], c['R'])
                close(f.S, S, 'S', 1e-6)
                close(f.SI, np.linalg.inv(S), 'SI', 1e-5)
                close(f.S1_2.dot(f.S1_2.T), S, 'factor of S', 1e-6)
        L = f.P1_2
        require(np.abs(np.triu(L, 1)).max() <= 1e-9 * np.abs(L).max(), 'factor not triangular: %r',
                L.tolist())
        close(f.P, P, 'covariance', 1e-6, 1e-2 * np.abs(c['P']).max())
        close(f.P_prior if s == 'p' else f.P_post, P, 'recorded covariance', 1e-6,
              1e-2 * np.abs(c['P']).max())
        close(f.R, c['R'], 'R', 1e-9)
        close(f.Q, c['Q'], 'Q', 1e-9)
    ctx.nt(len(c['seq']) > 1)


def gen_noinfo(g):
    c = filters.model(g, 3, 2)
    n = c['n']
    # entries of comparable size: while part of the state is unknown, the filter has to tell
    # 'no information' from rounding, which badly scaled entries make impossible
    c['F'] = np.round(c['F'] * 8) / 8
    if abs(np.linalg.det(c['F'])) < 1e-2:
        c['F'] = np.eye(n) + np.triu(c['F'], 1)
    c['H'] = np.round(c['H'] * 8) / 8
    c['x0'] = np.round(c['x0'] * 8) / 8
    k = g.choice(['none', 'none', 'rank', 'diag'])
    if k == 'none':
        c['Y'] = np.zeros((n, n))
    elif k == 'rank':
        v = g.ints(n, 2).reshape(n, 1)
        c['Y'] = v.dot(v.T) * g.choice([1., .25, 4.])
    else:
        c['Y'] = np.diag(np.abs(g.ints(n, 1)))
    if g.bool():
        c['H'] = np.eye(n)[[g.int(0, n - 1)]]
        c['m'] = 1
        c['R'] = g.spd(1, 1e-2, 30.)
    c['ops'] = [{'op': g.choice('pu'), 'z': g.vec(c['m'], 20.),
                 'u': g.vec(c['u_dim'], 4.) if c['B'] is not None and g.prob(5) else None}
                for _ in range(g.int(2, 10))]
    return c


def check_noinfo(c, ctx):
    """exact recursion on (information vector, information matrix)"""
    n = c['n']
    if np.linalg.cond(c['F']) > 1e3:
        ctx.label('ill-conditioned F')
        return
    f = InformationFilter(n, c['m'], c['u_dim'])
    f.x = lin.shape_x(c['x0'], c['layout'])
    f.F, f.Q, f.H, f.P_inv = c['F'], c['Q'], c['H'], c['Y'].copy()
    f.R_inv = np.linalg.inv(c['R'])
    if c['B'] is not None:
        f.B = c['B']
    Y = c['Y']
    y = Y.dot(ref.col(c['x0']))
    Fi = np.linalg.inv(c['F'])
    full = 0
    scale = 1e-3
    for o in c['ops']:
        if o['op'] == 'p':
            f.predict(*([] if o['u'] is None else [lin.shape_x(o['u'], c['layout'])]))
            A = Fi.T.dot(Y).dot(Fi)
            L = np.linalg.inv(np.eye(n) + A.dot(c['Q']))
            Y, y = ref.sym(L.dot(A)), L.dot(Fi.T).dot(y)
            if o['u'] is not None:
                y = y + Y.dot(c['B'].dot(ref.col(o['u'])))
        else:
            f.update(lin.shape_x(o['z'], c['layout']))
            HR = c['H'].T.dot(np.linalg.inv(c['R']))
            Y, y = Y + HR.dot(c['H']), y + HR.dot(ref.col(o['z']))
        scale = max(scale, np.abs(Y).max())
        close(f.P_inv, Y, 'information matrix', 1e-6, scale)
        w = np.linalg.eigvalsh(Y) / max(np.abs(Y).max(), 1e-300)
        if np.any((w > 1e-13) & (w < 1e-5)):
            ctx.label('weakly determined, not followed further')
            break       # neither known nor unknown: any result is dominated by rounding
        if w.min() > 1e-5:
            full += 1
            x = np.linalg.solve(Y, y)
            close(f.x, x, 'state once everything is observed', 1e-3, max(1., np.abs(x).max()),
                  flat=True)
        elif np.abs(np.asarray(f.x)).max() > 1e7:
            # the unknown part of the state is arbitrary; once it is this large its rounding
            # error swamps the known part (a limit of double precision, not followed)
            ctx.label('unknown part swamps the known part')
            break
    s = np.linalg.matrix_rank(c['Y'])
    ctx.label('start rank %d of %d' % (s, n), 'ends determined' if full else 'stays undetermined')
    ctx.nt(s < n and full > 0)


SUBS = [Sub('agree', gen, check_all, 800),
        Sub('free', lambda g: gen(g, False), check_free, 1200),
        Sub('roots', gen_roots, check_roots, 500),
        Sub('noinfo', gen_noinfo, check_noinfo, 1500)]
