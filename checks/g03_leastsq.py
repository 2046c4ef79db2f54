"""Recursive least squares equals the polynomial fitted to all samples so far."""
import numpy as np
from filterpy.leastsq import LeastSquaresFilter
from vlib.harness import Sub, close, require, raises

PROPERTY = 'G03'
RULE = ('Random orders, time steps, noise levels and sample sequences with resets in between, against '
        'a direct least-squares fit of all samples since the last reset; non-trivial: more samples '
        'than coefficients.')


def gen(g):
    o = g.int(0, 2)
    N = g.int(1, 30)
    return {'order': o, 'dt': g.choice([1., .1, .5, 2., 10., .01]), 'sigma': g.choice([0., 1., 2.5]),
            'z': g.vec(N, 10.), 'offset': g.choice([0., 0., 1000.]),
            'resets': [g.prob(1) for _ in range(N)], 'int': g.prob(2), 'bad': g.choice([-1, 3, 7])}


def check(c, ctx):
    o, dt, sg = c['order'], c['dt'], c['sigma']
    f = LeastSquaresFilter(dt, o, sg) if sg else LeastSquaresFilter(dt, o)
    raises(lambda: LeastSquaresFilter(dt, c['bad']), ValueError, 'order %d' % c['bad'])
    for e in f.errors():
        close(e, np.zeros(o + 1), 'errors before the first sample', 1e-15)
    zs, prev = [], np.zeros(o + 1)
    D = np.array([1., dt, dt * dt])[:o + 1]
    longest = 0
    for z, reset in zip(c['z'] + c['offset'], c['resets']):
        if c['int']:
            z = int(round(z))
        if reset:
            f.reset()
            require(f.n == 0, 'n is %r after a reset', f.n)
            zs, prev = [], np.zeros(o + 1)
            close(f.x, prev, 'state after a reset', 1e-15)
        zs.append(float(z))
        n = len(zs)
        longest = max(longest, n)
        pred = sum(prev[i] * dt ** i / [1., 1., 2.][i] for i in range(o + 1))
        r = f.update(z)
        x = np.array(f.x, dtype=float)
        require(x.shape == (o + 1,), 'state has shape %s', x.shape)
        close(r, x, 'returned estimate', 1e-15)
        require(f.n == n, 'n is %r after %d samples', f.n, n)
        sc = 20. + c['offset']
        close(np.ravel(f.y), [z - pred], 'residual', 1e-6, sc * 10)
        prev = x
        t = (np.arange(n) - (n - 1.))
        A = np.column_stack([t ** i / [1., 1., 2.][i] for i in range(o + 1)])
        if n > o:
            s, _, _, _ = np.linalg.lstsq(A, np.array(zs), rcond=None)
            close(x * D, s, 'estimate after %d samples' % n, 1e-7, sc)
            C = np.linalg.inv(A.T.dot(A))
            e = sg * np.sqrt(np.diag(C)) / D
            err, std = f.errors()
            for i in range(o + 1):
                close(err[i], e[i], 'error of derivative %d after %d samples' % (i, n), 1e-6, 1e-12)
                close(std[i], e[i], 'deviation of derivative %d after %d samples' % (i, n), 1e-6, 1e-12)
        else:
            close(x[0], z, 'estimate while the fit is undetermined', 1e-7, sc)
            err, std = f.errors()
            close(std[0], sg, 'deviation while the fit is undetermined', 1e-9)
            require(np.all(np.isfinite(err)) and np.all(np.isfinite(std)), 'errors %r %r', err, std)
    ctx.label('order %d' % o, 'reset' if any(c['resets']) else '')
    ctx.nt(longest > o + 1)


def gen_long(g):
    return {'order': g.int(0, 2), 'dt': g.choice([1., .1, .5, 2., 10., .01]),
            'N': g.choice([300, 1100, 3000, 6000, 12000]), 'seed': g.int(0, 10 ** 6),
            'drift': g.vec(3, 3.), 'noise': g.choice([0., 1., 5.])}


def check_long(c, ctx):
    """a long record: no sample is forgotten, none counts double"""
    o, dt, N = c['order'], c['dt'], c['N']
    r = np.random.RandomState(c['seed'])
    u = np.linspace(-1., 1., N)
    zs = 5. * (c['drift'][0] + c['drift'][1] * u + c['drift'][2] * u * u) + c['noise'] * r.randn(N)
    f = LeastSquaresFilter(dt, o, 1.)
    D = np.array([1., dt, dt * dt])[:o + 1]
    sc = 20. + np.abs(zs).max()
    for k, z in enumerate(zs):
        f.update(z)
        n = k + 1
        if n in (N, N // 2, 257, 1025, 2049, 4097, 10001):
            # fitted in the well-scaled variable t / n
            t = (np.arange(n) - (n - 1.)) / n
            A = np.column_stack([t ** i / [1., 1., 2.][i] for i in range(o + 1)])
            s = np.linalg.lstsq(A, zs[:n], rcond=None)[0]
            close(np.array(f.x, dtype=float) * D * float(n) ** np.arange(o + 1), s,
                  'estimate after %d samples' % n, 1e-6, sc)
            e = np.sqrt(np.diag(np.linalg.inv(A.T.dot(A))))
            err, std = f.errors()
            for w, q in (('error', err), ('deviation', std)):
                close(q * D * float(n) ** np.arange(o + 1), e, '%s after %d samples' % (w, n), 1e-5)
    ctx.label('order %d' % o, 'N%d' % N)
    ctx.nt()


SUBS = [Sub('fits', gen, check, 1500), Sub('long', gen_long, check_long, 60)]
