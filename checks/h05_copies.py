"""A copy of an estimator, taken at any moment, continues as the original would, independently."""
import copy
import pickle
import numpy as np
from vlib import filters
from vlib.harness import Sub, Violation, require, same

PROPERTY = 'H05'
RULE = ('Random histories on every estimator; at a random moment (also before the first step, and between '
        'a prediction and its update) a deep copy or a pickle round trip is taken, original and copy '
        'continue with different data in interleaved order, and both are compared bit for bit with '
        'fresh estimators fed the whole history. Non-trivial: real measurements before and after the '
        'copy is taken.')
NAMES = ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post', 'P_inv', 'mu', 'p', 'dx', 'ddx', 'xSmooth', 'n',
         'K', 'y', 'S', 'log_likelihood', 'mahalanobis', 'sigmas')


def gen(g):
    c = filters.model(g, 3, 2)
    c['who'] = g.choice(filters.ALL + filters.OTHER)
    c['pre'] = filters.history(g, c, 0, 4, 1)
    c['mid'] = g.bool()                      # copy taken between a prediction and its update
    c['a'] = filters.history(g, c, 1, 4, 1)
    c['b'] = [[None if u is None else u + 1., None if z is None else z * .5 + 1.] for u, z in c['a']]
    c['how'] = g.choice(('deepcopy', 'pickle'))
    c['order'], c['scalar'], c['seed'] = g.int(0, 2), g.bool(), g.int(0, 999)
    return c


def seen(o):
    out = {}
    for k in NAMES:
        try:
            v = getattr(o.f, k)
        except AttributeError:
            continue
        out[k] = np.array(v, dtype=float) if v is not None else None
    return out


def make(c):
    return filters.A(c['who'], c) if c['who'] in filters.ALL else filters.W(c['who'], c)


def step(o, uz):
    o.predict(uz[0])
    o.update(uz[1])


def check(c, ctx):
    who = c['who']
    o, ra, rb = make(c), make(c), make(c)
    for q in (o, ra, rb):
        for uz in c['pre']:
            step(q, uz)
        if c['mid']:
            q.predict(None)
    try:
        k = copy.deepcopy(o) if c['how'] == 'deepcopy' else pickle.loads(pickle.dumps(o))
    except Exception as e:
        raise Violation('%s of %s failed: %r' % (c['how'], type(o.f).__name__, e))
    require(type(k.f) is type(o.f), 'type of the copy')

    def compare(x, y, what):
        a, b = seen(x), seen(y)
        require(a.keys() == b.keys(), '%s: %s: attributes differ', who, what)
        for n in a:
            if a[n] is None or b[n] is None:
                require(a[n] is None and b[n] is None, '%s: %s: %s', who, what, n)
            else:
                same(a[n], b[n], '%s: %s: %s' % (who, what, n))
    compare(k, o, 'fresh copy')
    for i, (uza, uzb) in enumerate(zip(c['a'], c['b'])):
        if i == 0 and c['mid']:
            for q, z in ((o, uza[1]), (k, uzb[1]), (ra, uza[1]), (rb, uzb[1])):
                q.update(z)
        else:
            step(o, uza)
            step(k, uzb)
            step(ra, uza)
            step(rb, uzb)
        compare(o, ra, 'original after the copy went its own way')
        compare(k, rb, 'copy (%s) continued' % c['how'])
    if isinstance(getattr(k.f, 'x', None), np.ndarray):
        keep = seen(o)
        for v in vars(k.f).values():
            if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.flags.writeable:
                v[...] = 3.
        now = seen(o)
        for n in keep:
            if keep[n] is not None and n not in ('log_likelihood', 'mahalanobis'):
                same(now[n], keep[n], '%s: original after editing the copy in place: %s' % (who, n))
    ctx.label(who, c['how'])
    ctx.nt(any(z is not None for _, z in c['pre']) and any(z is not None for _, z in c['a']))


SUBS = [Sub('copies', gen, check, quick=1500)]
