"""Discrete Bayes filter against direct sums."""
import numpy as np
from filterpy import discrete_bayes as db
from vlib.harness import Sub, close, require, same

PROPERTY = 'B01'
RULE = ('Random beliefs (floats, integers, lists, point masses), likelihoods, odd kernels (also longer '
        'than the grid), offsets (also beyond the grid), wrap and constant modes with fill values, and '
        'whole filter histories; every result is compared with the direct double sum. Non-trivial: a '
        'kernel of at least three cells on at least three cells with a non-zero offset, or a '
        'non-constant likelihood.')


def belief(g, n):
    k = g.int(0, 4)
    if k == 0:
        p = np.zeros(n)
        p[g.int(0, n - 1)] = 1
        return p.astype(int) if g.bool() else p
    if k == 1:
        return np.abs(g.ints(n, 3)).astype(int) + (g.int(0, 1) if n else 0)
    p = np.abs(g.floats(n, 1.))
    if k == 2:
        p[::2] = 0.
    if p.sum() == 0:
        p[g.int(0, n - 1)] = 1.
    return p / p.sum()


def kernel(g):
    k = 2 * g.int(0, 4) + 1
    w = np.abs(g.floats(k, 1.))
    if g.prob(2) or w.sum() == 0:
        w = np.zeros(k)
        w[g.int(0, k - 1)] = 1.
    return w / w.sum()


def gen_predict(g):
    n = g.int(1, 12)
    return {'p': belief(g, n), 'k': kernel(g), 'o': g.int(-n - 3, n + 3), 'mode': g.choice(['wrap', 'default',
            'constant', 'other']), 'cval': g.choice([0., 0., .1, 1., None]), 'lp': g.bool(), 'lk': g.bool(),
            'even': g.prob(1), 'np_o': g.bool()}


def direct(p, o, k, wrap, cval):
    n, c = len(p), len(k) // 2
    out = np.zeros(n)
    for i in range(n):
        for j in range(len(k)):
            t = i - (j - c)
            if wrap:
                out[i] += k[j] * p[(t - o) % n]
            else:
                q = t - o
                out[i] += k[j] * (p[q] if 0 <= t < n and 0 <= q < n else cval)
    return out


def call(c, p, o=None, k=None):
    kw = {}
    if c['mode'] != 'default':
        kw['mode'] = 'nearest' if c['mode'] == 'other' else c['mode']
    if c['cval'] is not None:
        kw['cval'] = c['cval']
    k = c['k'] if k is None else k
    o = c['o'] if o is None else o
    return db.predict(p.tolist() if c['lp'] else p.copy(), np.int64(o) if c['np_o'] else o,
                      k.tolist() if c['lk'] else k.copy(), **kw)


def check_predict(c, ctx):
    p, k, o = c['p'], c['k'], c['o']
    wrap = c['mode'] in ('wrap', 'default')
    cval = c['cval'] if c['cval'] is not None else 0.
    pf, kf = p.astype(float), k.astype(float)
    r = call(c, p)
    e = direct(pf, o, kf, wrap, cval)
    close(r, e, 'predict (%s, offset %d)' % (c['mode'], o), 1e-12, max(1e-3, np.abs(pf).max()))
    require(np.asarray(r).min() >= 0, 'negative belief %r', np.asarray(r).tolist())
    if wrap:
        close(np.sum(r), pf.sum(), 'total probability after a wrapped prediction', 1e-12)
        n = len(p)
        r2 = call(c, p, o + n)
        close(r2, e, 'prediction with the offset a full turn further', 1e-12, 1e-3)
        # a certain kernel only shifts: exactly
        d = np.zeros(len(k))
        d[len(k) // 2] = 1.
        same(np.asarray(call(c, p, o, d), dtype=float), np.array([pf[(i - o) % n] for i in range(n)]),
             'prediction with a certain kernel')
        # linear in the belief
        q = np.arange(1., n + 1)
        close(call(c, pf + q), e + direct(q, o, kf, True, 0.), 'linearity in the belief', 1e-11)
        # two steps are one step with the convolved kernel
        r3 = call(c, call(c, p), -o)
        close(r3, direct(direct(pf, o, kf, True, 0), -o, kf, True, 0), 'two steps', 1e-11, 1e-3)
        if c['even']:
            w = np.append(kf, .25)
            close(np.sum(call(c, p, o, w)), pf.sum() * w.sum(), 'total with an even kernel', 1e-12)
    else:
        d = np.zeros(len(k))
        d[len(k) // 2] = 1.
        s = np.array([pf[i - o] if 0 <= i - o < len(p) else cval for i in range(len(p))])
        same(np.asarray(call(c, p, o, d), dtype=float), s, 'shift with a certain kernel')
        if cval == 0.:
            require(np.sum(r) <= pf.sum() * (1 + 1e-12), 'probability grew from %r to %r', pf.sum(), np.sum(r))
    ctx.label(c['mode'], 'offset beyond the grid' if abs(o) >= len(p) else 'offset within',
              'kernel longer' if len(k) > len(p) else 'kernel shorter')
    ctx.nt(len(k) >= 3 and len(p) >= 3 and o != 0)


def gen_update(g):
    n = g.int(1, 12)
    return {'p': belief(g, n) if g.bool() else np.abs(g.floats(n, 1.)) + .01, 'l': np.abs(g.floats(n, 4.)),
            'hard': g.prob(3), 'keep': g.int(0, n - 1), 's': g.logfloat(1e-6, 1e6) if g.bool() else g.logfloat(1e-90, 1e90), 'll': g.bool(),
            'lp': g.bool(), 'int': g.prob(2)}


def check_update(c, ctx):
    p, l = c['p'].astype(float), c['l'].copy()
    if c['hard']:
        l = (l > 2).astype(float)
        ctx.label('zero likelihoods')
    if c['int']:
        l = np.round(l).astype(int)
    if p[c['keep']] == 0:
        p[c['keep']] = 1.
    if l[c['keep']] == 0:
        l[c['keep']] = 1
    e = p * l / (p * l).sum()
    P = p.copy()
    if np.all(P == np.round(P)) and c['int']:
        P = P.astype(int)
    L, P0, L0 = l.copy(), P.copy(), l.copy()
    r = db.update(L.tolist() if c['ll'] else L, P.tolist() if c['lp'] and not c['ll'] else P)
    close(r, e, 'update', 1e-12)
    require(np.asarray(r).min() >= 0 and abs(np.sum(r) - 1) < 1e-12, 'not a distribution: %r', np.asarray(r).tolist())
    same(P, P0, 'prior after update')
    same(L, L0, 'likelihood after update')
    close(db.update(l * c['s'], P.copy()), e, 'update does not depend on the scale of the likelihood', 1e-11)
    # two updates in either order are one update with the product
    l2 = np.arange(1., len(p) + 1)
    a = db.update(l2, db.update(l.astype(float), p.copy()))
    b = db.update(l.astype(float), db.update(l2, p.copy()))
    close(a, b, 'order of updates', 1e-11)
    close(a, db.update(l * l2, p.copy()), 'product of likelihoods', 1e-11)
    q = np.array(p)
    rr = db.normalize(q)
    close(q, p / p.sum(), 'normalize in place', 1e-12)
    close(rr, p / p.sum(), 'value of normalize', 1e-12)
    close(db.normalize(p * c['s']), p / p.sum(), 'normalize does not depend on the scale', 1e-11)
    ctx.nt(len(p) > 1 and len(set(l.tolist())) > 1)


def gen_history(g):
    n = g.int(2, 10)
    p = belief(g, n)
    if p.sum() == 0:
        p = p + 1
    return {'p': p, 'list': g.bool(),
            'ops': [{'k': kernel(g), 'o': g.int(-4, 4), 'l': np.abs(g.floats(n, 2.)) + .05, 'u': g.prob(6)}
                    for _ in range(g.int(1, 8))]}


def check_history(c, ctx):
    """the whole history against the transition matrix of the hidden Markov chain"""
    b = c['p'].tolist() if c['list'] else c['p'].copy()
    n = len(b)
    e = c['p'].astype(float)
    e = e / e.sum()
    b = (np.asarray(b, dtype=float) / np.sum(b))
    if c['list']:
        b = b.tolist()
    for o in c['ops']:
        T = np.zeros((n, n))
        h = len(o['k']) // 2
        for i in range(n):
            for j, w in enumerate(o['k']):
                T[(i + o['o'] + j - h) % n, i] += w
        e = T.dot(e)
        b = db.predict(b, o['o'], o['k'])
        close(b, e, 'belief after a prediction', 1e-11)
        close(np.sum(b), 1., 'total after a prediction', 1e-12)
        if o['u']:
            e = e * o['l']
            e = e / e.sum()
            b = db.update(o['l'], b)
            close(b, e, 'belief after an update', 1e-10)
    ctx.nt(len(c['ops']) > 2)


SUBS = [Sub('predict', gen_predict, check_predict, quick=1500),
        Sub('update', gen_update, check_update, quick=800),
        Sub('history', gen_history, check_history, quick=400)]
