"""Multiple-model bank: each filter runs alone, probabilities follow Bayes' rule, mixture moments."""
import sys
import numpy as np
from filterpy.kalman import MMAEFilterBank, KalmanFilter
from vlib import lin, ref
from vlib.harness import Sub, close, require

PROPERTY = 'M02'
RULE = ('Random banks of 1-4 Kalman filters with their own models, prior probabilities (including '
        'zeros, lists and tuples), predict/update histories in any order with controls, missing '
        'measurements and H and R given for one call, against independent filters and log-domain '
        'probabilities; non-trivial: at least two measurements and two different models.')


def gen(g):
    n, m, N = g.dim(1, 3, 6), g.dim(1, 2, 5), g.dim(1, 4, 8)
    c = {'n': n, 'm': m, 'N': N, 'layout': g.choice(['1d', 'col']), 'models': [],
         'u_dim': g.choice([0, 0, 1]), 'form': g.choice(['list', 'array', 'tuple']),
         'H0': g.mat(m, n) if g.prob(2) else None}
    for i in range(N):
        c['models'].append({'x': g.vec(n, 4.), 'P': g.spd(n, 1e-1, 10.), 'F': g.trans(n),
                            'Q': g.spd(n, 1e-2, 5.), 'H': g.mat(m, n), 'R': g.spd(m, .1, 10.),
                            'B': g.mat(n, 1)})
    p = np.array([0. if g.prob(1) else g.float(.05, 1.) for _ in range(N)])
    p[0] += p.sum() == 0
    c['p'] = p / p.sum()
    c['ops'] = []
    for _ in range(g.int(1, 8)):
        if g.bool():
            c['ops'].append({'op': 'predict', 'u': g.vec(1, 3.) if c['u_dim'] and g.bool() else None})
        else:
            o = {'op': 'update', 'z': None if g.prob(1) else g.vec(m, g.choice([3., 3., 10., 100.])),
                 'form': lin.z_forms(g, m, c['layout']),
                 'R': g.choice([None, None, 's', 'm']), 'H': g.mat(m, n) if g.prob(2) else None}
            if o['R'] == 's':
                o['R'] = g.logfloat(.1, 10.)
            elif o['R'] == 'm':
                o['R'] = g.spd(m, .1, 10.)
            c['ops'].append(o)
    return c


def check(c, ctx):
    n, m, N, lay = c['n'], c['m'], c['N'], c['layout']
    fs = []
    for q in c['models']:
        f = KalmanFilter(n, m, c['u_dim'])
        f.x = lin.shape_x(q['x'], lay)
        f.P, f.F, f.Q, f.H, f.R = q['P'].copy(), q['F'], q['Q'], q['H'], q['R']
        if c['u_dim']:
            f.B = q['B']
        fs.append(f)
    p = {'list': list, 'array': np.array, 'tuple': tuple}[c['form']](c['p'])
    b = MMAEFilterBank(fs, p, n, H=c['H0'])
    xs = [ref.col(q['x']) for q in c['models']]
    Ps = [q['P'] for q in c['models']]
    lw = np.log(np.maximum(c['p'], 1e-320))
    lw[c['p'] == 0] = -np.inf
    nz = 0
    moved = False
    for o in c['ops']:
        if o['op'] == 'predict':
            u = o['u']
            for i, q in enumerate(c['models']):
                xs[i], Ps[i] = ref.kf_predict(xs[i], Ps[i], q['F'], q['Q'],
                                              None if u is None else q['B'].dot(ref.col(u)))
            b.predict() if u is None else b.predict(lin.shape_x(u, lay))
        elif o['z'] is None:
            b.update(None)
            if not moved:
                # until something was processed the bank shows its first filter
                continue
        else:
            kw = {}
            if o['R'] is not None:
                kw['R'] = o['R']
            if o['H'] is not None:
                kw['H'] = o['H']
            zv = lin.zval(o['z'], o['form'])
            for i, q in enumerate(c['models']):
                H = o['H'] if o['H'] is not None else q['H'] if c['H0'] is None else c['H0']
                R = q['R'] if o['R'] is None else lin.full(o['R'], m)
                xs[i], Ps[i], y, S, _ = ref.kf_update(xs[i], Ps[i], zv, H, R)
                l = ref.gauss_logpdf(y, S)
                if l < -700:
                    # a likelihood is documented never to be zero, so it stops at the smallest float
                    ctx.label('ended: likelihood underflows')
                    return
                lw[i] += l
            lw -= lw.max()
            lw -= np.log(np.exp(lw).sum())
            b.update(lin.make_z(o['z'], o['form']), **kw)
            close(np.array(b.z, dtype=float), zv, 'recorded measurement', 1e-12, flat=True)
            nz += 1
        moved = True
        if np.any(np.isfinite(lw) & (lw < -600)):
            ctx.label('ended: probability underflows')
            return
        w = np.exp(lw)
        x = sum(a * v for a, v in zip(w, xs))
        P = sum(a * (q + (v - x).dot((v - x).T)) for a, v, q in zip(w, xs, Ps))
        s = max(1., max(np.abs(v).max() for v in xs))
        if s > 1e6:
            return
        ps = max(np.abs(q).max() for q in Ps) + s ** 2
        when = 'after ' + o['op']
        close(b.p, w, 'probabilities ' + when, 1e-7, 1.)
        require(np.all(np.asarray(b.p) >= 0) and abs(np.sum(b.p) - 1.) < 1e-9,
                'probabilities %s are %r', when, b.p)
        for i, f in enumerate(fs):
            close(f.x, xs[i], 'state of filter %d %s' % (i, when), 1e-7, s, flat=True)
            close(f.P, Ps[i], 'covariance of filter %d %s' % (i, when), 1e-7, ps)
        close(b.x, x, 'state ' + when, 1e-7, s, flat=True)
        close(b.P, P, 'covariance ' + when, 1e-7, ps)
        require(np.shape(b.x) == np.shape(fs[0].x), 'state has shape %s', np.shape(b.x))
        r = 'prior' if o['op'] == 'predict' else 'post'
        close(getattr(b, 'x_' + r), x, 'recorded state ' + when, 1e-7, s, flat=True)
        close(getattr(b, 'P_' + r), P, 'recorded covariance ' + when, 1e-7, ps)
        ctx.label(o['op'])
    ctx.label(lay, 'H default' if c['H0'] is not None else '')
    ctx.nt(nz >= 2 and N >= 2)


SUBS = [Sub('histories', gen, check, 2000)]
