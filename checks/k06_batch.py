"""Batch filtering == calling predict/update step by step, for every batch facility."""
import numpy as np
from filterpy import kalman
from filterpy.common import Saver
from vlib import filters, lin, ref
from vlib.harness import Sub, close, same, require

PROPERTY = 'K06'
RULE = ('Random data sets with per-step F/Q/H/R/B/u lists, missing data, both orders and a saver, '
        'against the same filter stepped by hand and against an independent reference; '
        'non-trivial: at least two steps with a real measurement.')


def gen_kf(g):
    c = lin.model(g, 4, 3)
    n, m = c['n'], c['m']
    k = g.int(1, 7)
    c['k'] = k
    c['vary'] = [v for v in ('F', 'Q', 'H', 'R', 'B') if g.prob(4) and (v != 'B' or c['u_dim'])]
    c['seq'] = {}
    for v in c['vary']:
        c['seq'][v] = [{'F': lambda: g.trans(n), 'Q': lambda: g.psd(n, 1e-3, 10.),
                        'H': lambda: g.mat(m, n), 'R': lambda: g.spd(m, 1e-2, 30.),
                        'B': lambda: g.mat(n, c['u_dim'])}[v]() for _ in range(k)]
    c['oneH'] = 'H' not in c['vary'] and g.prob(2)
    c['us'] = [g.vec(c['u_dim'], 4.) for _ in range(k)] if c['u_dim'] and g.prob(7) else None
    c['zs'] = [None if g.prob(1) else g.vec(m, 20.) for _ in range(k)]
    c['first'] = g.bool()
    c['saver'] = g.bool()
    c['form'] = g.choice(['array', 'list', 'col', 'scalar'])
    if c['form'] == 'scalar' and m != 1:
        c['form'] = 'array'
    c['fun'] = g.bool()
    c['arr'] = g.bool()
    return c


def check_kf(c, ctx):
    n, m, k = c['n'], c['m'], c['k']
    lay = c['layout']
    zs = [None if z is None else lin.make_z(z, c['form']) for z in c['zs']]
    if c['arr'] and all(z is not None for z in zs) and c['form'] != 'scalar':
        zs = np.array(zs)
    seqs = {v: list(c['seq'].get(v, [c[v]] * k)) for v in 'FQHRB'}
    us = None if c['us'] is None else [lin.shape_u(u, lay) for u in c['us']]
    if c['fun']:
        r = kalman.batch_filter(lin.shape_x(c['x0'], lay), c['P0'].copy(), zs, seqs['F'], seqs['Q'],
                                seqs['H'], seqs['R'], seqs['B'] if us is not None else None, us,
                                update_first=c['first'])
        sv = None
    else:
        f = filters.A('kf', c).f
        sv = Saver(f) if c['saver'] else None
        kw = {v + 's': seqs[v] for v in c['vary']}
        if c['oneH']:
            kw['Hs'] = c['H'].copy()
            f.H = c['H'] * 0. + 1.
        r = f.batch_filter(zs, us=us, update_first=c['first'], saver=sv, **kw)
        if c['oneH']:
            same(f.H, c['H'] * 0. + 1., 'H attribute')
    s = filters.A('kf', c).f
    means, covs, means_p, covs_p = r
    xr, Pr = ref.col(c['x0']), c['P0']
    shp = (k, n) if lay == '1d' else (k, n, 1)
    for v, w, q in ((means, shp, 'means'), (means_p, shp, 'predicted means'),
                    (covs, (k, n, n), 'covariances'), (covs_p, (k, n, n), 'predicted covariances')):
        require(np.shape(v) == w, '%s have shape %s, expected %s', q, np.shape(v), w)

    def pred(i):
        B, u = seqs['B'][i], (None if us is None else us[i])
        s.predict(u=u, B=B, F=seqs['F'][i], Q=seqs['Q'][i])
        return ref.kf_predict(xr, Pr, seqs['F'][i], seqs['Q'][i],
                              None if us is None else B.dot(c['us'][i]))

    def upd(i):
        s.update(None if c['zs'][i] is None else lin.make_z(c['zs'][i], c['form']),
                 R=seqs['R'][i], H=seqs['H'][i])
        if c['zs'][i] is None:
            return xr, Pr
        return ref.kf_update(xr, Pr, c['zs'][i], seqs['H'][i], seqs['R'][i])[:2]

    for i in range(k):
        for w in (('u', 'p') if c['first'] else ('p', 'u')):
            xr, Pr = pred(i) if w == 'p' else upd(i)
            a, b, q = (means_p, covs_p, 'predicted') if w == 'p' else (means, covs, 'posterior')
            sx = max(1., np.abs(xr).max())
            close(a[i], s.x, '%s state of step %d vs stepping' % (q, i), 1e-8, sx, flat=True)
            close(b[i], s.P, '%s covariance of step %d vs stepping' % (q, i), 1e-8)
            close(a[i], xr, '%s state of step %d' % (q, i), 1e-6, sx, flat=True)
            close(b[i], Pr, '%s covariance of step %d' % (q, i), 1e-6, 1e-3 * np.abs(c['P0']).max())
        if sv is not None:
            close(sv.x[i], s.x, 'saved state of step %d' % i, 1e-8, sx)
            close(sv.P[i], s.P, 'saved covariance of step %d' % i, 1e-8)
    if sv is not None:
        require(len(sv) == k, 'saver was called %d times for %d steps', len(sv), k)
    if not c['fun']:
        close(f.x, s.x, 'final state', 1e-8, max(1., np.abs(xr).max()))
        close(f.P, s.P, 'final covariance', 1e-8)
        close(f.x_prior, s.x_prior, 'final prior', 1e-8, 1.)
        close(f.x_post, s.x_post, 'final posterior', 1e-8, 1.)
    ctx.label('function' if c['fun'] else 'class', lay, 'first' if c['first'] else 'last',
              *['vary ' + v for v in c['vary']])
    ctx.nt(sum(z is not None for z in c['zs']) >= 2)


def gen_ukf(g):
    c = filters.model(g, 3, 2)
    c['kind'] = g.choice(['ukf_merwe', 'ukf_julier', 'ukf_simplex'])
    k = g.int(1, 6)
    c['zs'] = [None if g.prob(1) else g.vec(c['m'], 20.) for _ in range(k)]
    c['Rs'] = [g.spd(c['m']) for _ in range(k)] if g.bool() else None
    c['dts'] = [g.choice([.1, .5, 1., 2., 0.]) for _ in range(k)] if g.bool() else \
        (g.choice([.3, 2., 0.]) if g.bool() else None)
    c['saver'] = g.bool()
    c['one'] = g.bool()
    c['ut'] = g.prob(3)
    return c


def my_ut(sigmas, Wm, Wc, noise_cov=None, mean_fn=None, residual_fn=None):
    x = sum(w * s for w, s in zip(Wm, sigmas))
    P = sum(w * np.outer(s - x, s - x) for w, s in zip(Wc, sigmas))
    return x, 1.25 * P + noise_cov


def check_ukf(c, ctx):
    def make():
        a = filters.A(c['kind'], c)
        F = c['F']
        a.f.fx = lambda x, dt: x + dt * F.dot(x)
        return a.f
    k = len(c['zs'])
    f, s = make(), make()
    zs = c['zs']
    if c['m'] == 1 and c['one']:
        zs = [None if z is None else float(z[0]) for z in zs]
    sv = Saver(f) if c['saver'] else None
    UT = my_ut if c['ut'] else None
    means, covs = f.batch_filter(zs, Rs=c['Rs'], dts=c['dts'], saver=sv, UT=UT)
    for i in range(k):
        dt = c['dts'][i] if isinstance(c['dts'], list) else c['dts']
        s.predict(dt=dt, UT=UT)
        s.update(zs[i], R=None if c['Rs'] is None else c['Rs'][i], UT=UT)
        sx = max(1., np.abs(s.x).max())
        close(means[i], s.x, 'UKF batch state %d' % i, 1e-8, sx)
        close(covs[i], s.P, 'UKF batch covariance %d' % i, 1e-8)
        if sv is not None:
            close(sv.x[i], s.x, 'UKF saved state %d' % i, 1e-8, sx)
    if sv is not None:
        require(len(sv) == k, 'UKF saver was called %d times for %d steps', len(sv), k)
    ctx.label(c['kind'], 'dts ' + type(c['dts']).__name__)
    ctx.nt(k >= 2)


def gen_other(g):
    c = filters.model(g, 3, 2)
    c['kind'] = g.choice(['fkf', 'hinf'])
    c['layout'] = 'col'
    k = g.int(1, 6)
    c['alpha'] = g.float(1., 1.2)
    c['zs'] = [None if g.prob(1) else g.vec(c['m'], 20.) for _ in range(k)]
    c['Rs'] = [g.spd(c['m']) for _ in range(k)] if g.bool() else None
    c['first'] = g.bool()
    c['saver'] = g.bool()
    return c


def check_other(c, ctx):
    import importlib.util
    from filterpy.hinfinity import HInfinityFilter
    import warnings

    def make():
        if c['kind'] == 'fkf':
            return filters.A('fkf', c).f
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = HInfinityFilter(c['n'], c['m'], 0, .001)
        f.x, f.P, f.F, f.H = c['x0'].reshape(-1, 1), c['P0'], c['F'], c['H']
        f.Q, f.W, f.V = c['Q'], c['Q'] * .1, c['R']
        return f
    f, s = make(), make()
    zs = [None if z is None else z.reshape(-1, 1) for z in c['zs']]
    k = len(zs)
    kw = {}
    sv = None
    if c['kind'] == 'fkf':
        kw['Rs'] = c['Rs']
    elif c['saver']:
        sv = kw['saver'] = Saver(f)
    r = f.batch_filter(zs, update_first=c['first'], **kw)
    for i in range(k):
        for w in (('u', 'p') if c['first'] else ('p', 'u')):
            if w == 'p':
                s.predict()
            elif c['kind'] == 'fkf':
                s.update(zs[i], None if c['Rs'] is None else c['Rs'][i])
            else:
                s.update(zs[i])
            sx = max(1., np.abs(s.x).max())
            if w == 'u':
                close(r[0][i], s.x, 'batch state %d' % i, 1e-8, sx)
                close(r[1][i], s.P, 'batch covariance %d' % i, 1e-8)
            elif c['kind'] == 'fkf':
                close(r[2][i], s.x, 'batch predicted state %d' % i, 1e-8, sx)
                close(r[3][i], s.P, 'batch predicted covariance %d' % i, 1e-8)
        if sv is not None:
            close(sv.x[i], s.x, 'saved state', 1e-8, sx)
    if sv is not None:
        require(len(sv) == k, 'saver was called %d times for %d steps', len(sv), k)
    ctx.label(c['kind'], 'first' if c['first'] else 'last')
    ctx.nt(k >= 2)


SUBS = [Sub('kalman', gen_kf, check_kf, 1500), Sub('ukf', gen_ukf, check_ukf, 500),
        Sub('other', gen_other, check_other, 500)]
