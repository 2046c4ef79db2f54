"""Fading-memory polynomial filter: discounted fit, tracking, reported variance and bias."""
import numpy as np
from filterpy.memory import FadingMemoryFilter
from vlib.harness import Sub, close, require, raises

PROPERTY = 'G04'
RULE = ('Random orders, fading factors, time steps and sample sequences against an explicit recursion, '
        'the discounted least-squares fit, exact tracking of polynomials of the filter\'s order, and '
        'the variance and bias measured by running the filter on an impulse and on a polynomial one '
        'degree higher; non-trivial: factor strictly between 0 and 1 and at least two samples.')

FACT = [1., 1., 2., 6.]


def gen(g):
    o = g.int(0, 2)
    return {'order': o, 'dt': g.choice([1., .1, .5, 2., 5.]), 'beta': g.choice([0., g.float(.02, .95), g.float(.02, .95), g.float(.02, .95)]),
            'x0': g.vec(o + 1), 'form': g.choice(['scalar', 'array', 'list', 'int']),
            'z': g.vec(g.choice([g.int(1, 12), g.int(1, 12), 80]), 10.), 'poly': g.vec(o + 1, 4.), 'bad': g.choice([-1, 3, 9])}


def make(c):
    o = c['order']
    if c['form'] == 'scalar':
        x = np.zeros(o + 1)
        x[0] = c['x0'][0]
        return FadingMemoryFilter(float(x[0]), c['dt'], o, c['beta']), x
    x = np.array(c['x0'], dtype=float)
    if c['form'] == 'int':
        x = np.round(x)
        return FadingMemoryFilter(x.astype(int), c['dt'], o, c['beta']), x
    return FadingMemoryFilter([float(v) for v in x] if c['form'] == 'list' else x.copy(), c['dt'], o,
                              c['beta']), x


def gains(o, b):
    if o == 0:
        return [1. - b]
    if o == 1:
        return [1. - b ** 2, (1. - b) ** 2]
    return [1. - b ** 3, 1.5 * (1. + b) * (1. - b) ** 2, (1. - b) ** 3]


def check(c, ctx):
    o, dt, b = c['order'], c['dt'], c['beta']
    raises(lambda: FadingMemoryFilter(0., dt, c['bad'], b), ValueError, 'order %d' % c['bad'])
    f, x = make(c)
    close(f.x, x, 'initial state', 1e-15)
    G = gains(o, b)
    sc = 1.
    for z in c['z']:
        p = [sum(x[j] * dt ** (j - i) / FACT[j - i] for j in range(i, o + 1)) for i in range(o + 1)]
        x = np.array([p[i] + G[i] / dt ** i * (z - p[0]) for i in range(o + 1)])
        f.update(float(z))
        sc = max(sc, np.abs(x).max(), np.abs(p).max())
        close(f.x, x, 'estimate', 1e-10, sc)
    # a polynomial of the filter's order is tracked without error
    a = c['poly']

    def at(t):
        return np.array([sum(a[j] * t ** (j - i) / FACT[j - i] for j in range(i, o + 1))
                         for i in range(o + 1)])
    f = FadingMemoryFilter(at(0.), dt, o, b)
    for i in range(1, 12):
        f.update(at(i * dt)[0])
        close(f.x, at(i * dt), 'tracking a polynomial of the filter\'s order', 1e-9,
              np.abs(at(i * dt)).max() + np.abs(at(0.)).max() + 1. / dt ** o)
    ctx.label('order %d' % o, c['form'])
    ctx.nt(len(c['z']) > 1)


def gen_resp(g):
    return {'order': g.int(0, 2), 'dt': g.choice([1., .1, .5, 2.]), 'beta': g.float(.02, .85),
            'z': g.vec(g.int(190, 230), 10.)}


def check_resp(c, ctx):
    o, dt, b = c['order'], c['dt'], c['beta']
    D = np.array([dt ** i for i in range(o + 1)])
    f = FadingMemoryFilter(0., dt, o, b)
    P, e = np.array(f.P, dtype=float), np.array(f.e, dtype=float)
    require(P.shape == (o + 1,) and e.shape == (o + 1,), 'P has shape %s, e %s', P.shape, e.shape)
    r = []
    for i in range(400):
        f.update(1. if i == 0 else 0.)
        r.append(np.array(f.x) * D)
    close(P * D ** 2, (np.array(r) ** 2).sum(axis=0), 'reported variance', 1e-6)
    close(f.P, P, 'reported variance after running', 1e-15)
    # truncation error: steady-state error on t^(order+1)
    f = FadingMemoryFilter(0., dt, o, b)
    for i in range(400):
        f.update((i * dt) ** (o + 1))
    t = 399 * dt
    truth = [t ** (o + 1 - i) * [1., o + 1., (o + 1.) * o][i] for i in range(o + 1)]
    err = np.array(truth) - np.array(f.x)
    close(err * D / dt ** (o + 1), e * D / dt ** (o + 1), 'reported truncation error', 1e-4, 1.)
    # discounted least squares
    z = c['z']
    f = FadingMemoryFilter(0., dt, o, b)
    for v in z:
        f.update(v)
    n = np.arange(len(z))[::-1]
    if b ** len(z) * len(z) ** 3 < 1e-9:
        A = np.column_stack([(-1. * n) ** i / FACT[i] for i in range(o + 1)])
        w = b ** (n / 2.)
        s = np.linalg.lstsq(A * w[:, None], z * w, rcond=None)[0]
        close(np.array(f.x) * D, s, 'discounted least-squares fit', 1e-5, 10.)
        ctx.label('discounted')
    ctx.label('order %d' % o)
    ctx.nt()


SUBS = [Sub('recursion', gen, check, 1500), Sub('response', gen_resp, check_resp, 300)]
