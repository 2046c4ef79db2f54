"""Particle resampling with the random source replaced by generated draws."""
import math
import random as pyrandom

import numpy as np
from filterpy.monte_carlo import resampling as rs
from vlib.harness import Sub, close, require, same

PROPERTY = 'R01'
RULE = ('Random normalised weight vectors (zeros at either end or inside, multiples of 1/N, rounding '
        'noise, one dominant, N up to 40000) and random draws chosen by the generator, including 0 and '
        'the largest float below 1; each scheme is checked for validity and its count bounds, and its '
        'counts averaged over a grid of draws against N times the weight. Non-trivial: at least three '
        'particles with unequal weights, at least one zero weight or an extreme draw.')

TOP = 1. - 2. ** -53
SCHEMES = ['residual', 'stratified', 'systematic', 'multinomial']


class Source(object):
    """stands in for numpy.random.random wherever the module may get it"""

    def __init__(self, draws):
        self.draws = [float(d) for d in draws]
        self.i = 0
        self.sizes = []

    def __call__(self, size=None):
        self.sizes.append(1 if size is None else int(np.prod(size)))
        if size is None:
            d = self.draws[self.i % len(self.draws)]
            self.i += 1
            return d
        k = int(np.prod(size))
        v = np.array([self.draws[(self.i + j) % len(self.draws)] for j in range(k)])
        self.i += k
        return v.reshape(size)

    def rand(self, *shape):
        return self(shape if shape else None)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self(size)


class replaced(object):
    NAMES = ['random', 'random_sample', 'ranf', 'sample']

    def __init__(self, src):
        self.src = src

    def __enter__(self):
        self.old = [(np.random, n, getattr(np.random, n)) for n in self.NAMES + ['rand', 'uniform']
                    if hasattr(np.random, n)]
        if callable(getattr(rs, 'random', None)):
            self.old.append((rs, 'random', rs.random))
        for o, n, _ in self.old:
            setattr(o, n, self.src.rand if n == 'rand' else self.src.uniform if n == 'uniform' else self.src)
        return self.src

    def __exit__(self, *a):
        for o, n, v in self.old:
            setattr(o, n, v)


def run(scheme, w, draws):
    f = getattr(rs, scheme + '_resample')
    src = Source(draws)
    with replaced(src):
        r = f(w)
    return r, src


def weights(g):
    k = g.int(0, 7)
    n = g.int(1, 12)
    if k == 0:
        w = np.ones(n)
    elif k == 1:                                  # multiples of 1/n
        c = [g.int(0, n - 1) for _ in range(n)]
        w = np.bincount(c, minlength=n).astype(float)
    elif k == 2:
        w = np.zeros(n)
        w[g.int(0, n - 1)] = 1.
    elif k == 3:                                  # zeros at the ends
        w = np.abs(g.floats(n, 1.)) + .01
        a, b = g.int(0, n - 1), g.int(0, n - 1)
        w[:min(a, b)] = 0.
        w[max(a, b) + 1:] = 0.
    elif k == 4:
        w = np.abs(g.floats(n, 1.))
        w[np.abs(g.floats(n, 1.)) < .4] = 0.
    elif k == 5:
        w = np.exp(g.floats(n, 12.))
    else:
        w = np.abs(g.floats(n, 1.)) + .001
    if w.sum() == 0:
        w[g.int(0, n - 1)] = 1.
    return w / w.sum()


def gen(g):
    w = weights(g)
    n = len(w)
    kind = g.int(0, 4)
    d = [g.float(0., 1.) for _ in range(n)]
    d = [min(v, TOP) for v in d]
    if kind == 0:
        d = [0.] * n
    elif kind == 1:
        d = [TOP] * n
    elif kind == 2:                               # right at the edges of the weights
        cs = np.cumsum(w)
        for i in range(n):
            t = float(cs[g.int(0, n - 1)])
            t = t * n - math.floor(t * n) if g.bool() else t
            t = float(np.nextafter(t, 2. * g.int(0, 1)))
            d[i] = min(max(t, 0.), TOP)
    elif kind == 3:
        for i in range(n):
            if g.prob(3):
                d[i] = g.choice([0., TOP, 2. ** -53, .5])
    return {'w': w, 'd': d, 'scheme': g.choice(SCHEMES), 'list': g.bool(), 'seed': g.int(0, 2 ** 31 - 1)}


def bounds(scheme, w, r, what):
    n = len(w)
    r = np.asarray(r)
    require(r.shape == (n,), '%s returned shape %s for %d weights', what, r.shape, n)
    require(np.issubdtype(r.dtype, np.integer), '%s returned %s, not integers', what, r.dtype)
    require(r.min() >= 0 and r.max() < n, '%s returned an index outside 0..%d: %r', what, n - 1, r.tolist()[:50])
    bad = [int(i) for i in r if w[i] == 0]
    require(not bad, '%s selected particle %r of weight zero', what, bad[:3])
    c = np.bincount(r, minlength=n)
    e = n * w
    tol = 1e-9 * n
    if scheme == 'systematic':
        require(np.all(np.abs(c - e) < 1 + tol), '%s: counts %r for expected %r', what, c.tolist(), e.tolist())
    elif scheme == 'stratified':
        require(np.all(np.abs(c - e) < 2 + tol), '%s: counts %r for expected %r', what, c.tolist(), e.tolist())
    elif scheme == 'residual':
        low = np.floor(e - tol)
        require(np.all(c >= low), '%s: counts %r below the integer parts of %r', what, c.tolist(), e.tolist())
        up = np.floor(e + tol) + n - np.floor(e - tol).sum()
        require(np.all(c <= up), '%s: counts %r above %r', what, c.tolist(), up.tolist())
        # a particle whose expected number is whole gets exactly that number
        whole = np.abs(e - np.round(e)) < 1e-13 * np.maximum(1, e)
        extra = (e == np.round(e)) & whole
        require(np.all(c[extra] == np.round(e)[extra]), '%s: counts %r for expected %r', what, c.tolist(),
                e.tolist())
    return c


def check(c, ctx):
    w, s = c['w'], c['scheme']
    w0 = w.copy()
    ww = w.tolist() if c['list'] else w
    r, src = run(s, ww, c['d'])
    same(w, w0, 'weights after resampling')
    cnt = bounds(s, w, r, s + '_resample')
    if s in ('systematic', 'stratified'):
        # each stratum of width 1/N yields one particle: after k strata the particles up to j were
        # chosen about N*cumsum times
        cum = np.cumsum(cnt)
        e = len(w) * np.cumsum(w)
        require(np.all(np.abs(cum - e) < 1 + 1e-9 * len(w)),
                '%s_resample: running counts %r for expected %r', s, cum.tolist(), e.tolist())
    if src.sizes:
        # a scheme with independent draws cannot use fewer random numbers than it has free choices
        need = {'systematic': 1, 'stratified': len(w), 'multinomial': len(w),
                'residual': len(w) - int(np.floor(len(w) * w + 1e-9).sum())}[s]
        require(sum(src.sizes) >= need, '%s_resample used %d random numbers for %d independent choices', s,
                sum(src.sizes), need)
    ext = any(d in (0., TOP) for d in c['d'])
    ctx.label(s, 'extreme draw' if ext else 'inner draws', 'zero weights' if (w == 0).any() else 'all positive')
    ctx.nt((len(w) >= 3 and len(set(w.tolist())) > 1 and (w == 0).any()) or ext)


def check_mean(c, ctx):
    """counts averaged over the random source equal N times the weight"""
    w, s = c['w'], c['scheme']
    n = len(w)
    if n == 1:
        return
    M = 300
    tot = np.zeros(n)
    used = True
    for i in range(M):
        r, src = run(s, w, [(i + .5) / M])
        tot += np.bincount(np.asarray(r), minlength=n)
        used = used and bool(src.sizes)
    k = n - int(np.floor(n * w + 1e-9).sum())
    if k == 0 and s == 'residual' or s == 'systematic' or used:
        # midpoint rule on a step function: at most two jumps per particle of height <= n
        err = 1.01 * n / M + 1e-9 if s in ('multinomial', 'residual') else 1.01 / M * 2 + 1e-9
        if s == 'stratified':
            err = 1.01 / M * 2 + 1e-9
        require(np.all(np.abs(tot / M - n * w) <= err), '%s_resample: mean counts %r over evenly spread draws, '
                'expected %r', s, (tot / M).tolist(), (n * w).tolist())
        ctx.label(s)
        ctx.nt(len(set(w.tolist())) > 1)
    else:
        # another source of randomness: statistical check
        np.random.seed(c['seed'])
        tot = np.zeros(n)
        M = 2000
        for i in range(M):
            tot += np.bincount(np.asarray(getattr(rs, s + '_resample')(w)), minlength=n)
        sd = np.sqrt(n * w * (1 - w) / M)
        require(np.all(np.abs(tot / M - n * w) <= 8 * sd + 1e-3), '%s_resample: mean counts %r, expected %r', s,
                (tot / M).tolist(), (n * w).tolist())
        ctx.label('statistical')


def gen_large(g):
    return {'n': g.choice([100, 257, 400, 1000, 3000, 3000, 40000]), 'seed': g.int(0, 2 ** 31 - 1), 'scheme': g.choice(SCHEMES),
            'kind': g.choice(['uniform', 'exp', 'sparse', 'equal', 'tail', 'one', 'one']), 'top': g.choice(['none', 'top', 'zero'])}


def check_large(c, ctx):
    n = c['n']
    rng = np.random.RandomState(c['seed'])
    w = rng.rand(n)
    if c['kind'] == 'exp':
        w = np.exp(10 * w)
    elif c['kind'] == 'sparse':
        w[rng.rand(n) < .9] = 0.
        w[n // 2] = 1.
    elif c['kind'] == 'equal':
        w = np.ones(n)
    elif c['kind'] == 'tail':
        w[n - n // 10:] = 0.
        w[:n // 10] = 0.
    if c['kind'] == 'one':                        # one particle with most of the weight
        share = rng.randint(1, 8) / 8.
        w = np.full(n, (1. - share) / (n - 1))
        w[rng.randint(n)] = share
    else:
        w = w / w.sum()
    d = rng.rand(n)
    if c['top'] == 'top':
        d[-1] = TOP
        d[rng.randint(n)] = TOP
    elif c['top'] == 'zero':
        d[0] = 0.
    if c['scheme'] == 'systematic' and c['top'] == 'top':
        d[:] = TOP
    r, _ = run(c['scheme'], w, d)
    bounds(c['scheme'], w, r, '%s_resample of %d' % (c['scheme'], n))
    ctx.label(c['kind'], c['scheme'])
    ctx.nt()


SUBS = [Sub('draws', gen, check, quick=3000),
        Sub('mean', gen, check_mean, quick=150),
        Sub('large', gen_large, check_large, quick=150)]
