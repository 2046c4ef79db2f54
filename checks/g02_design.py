"""Gain designers meet their defining equations; reported noise reduction is the filter's own response."""
import numpy as np
from filterpy.gh import (GHFilter, GHKFilter, optimal_noise_smoothing, least_squares_parameters,
                         critical_damping_parameters, benedict_bornder_constants)
from vlib.harness import Sub, close, require, raises

PROPERTY = 'G02'
RULE = ('Random stable gains (placed by their poles), time steps and design parameters; the responses '
        'of the filter itself to a unit impulse, a cubic and unit initial states are measured by '
        'running it and compared with the reported figures; non-trivial: every stable gain set '
        'whose response settles.')


def poles(g, n):
    r = []
    while len(r) < n:
        if n - len(r) >= 2 and g.bool():
            a, w = g.float(.1, .93), g.float(.05, 3.)
            r += [a * np.exp(1j * w), a * np.exp(-1j * w)]
        else:
            r.append(g.float(-.5, .93))
    return np.poly(r).real


def mats(dt, n):
    A = np.array([[1., dt, .5 * dt ** 2], [0., 1., dt], [0., 0., 1.]])[:n, :n]
    S = np.diag([1., 1. / dt, 2. / dt ** 2][:n])
    return A, S


def place(poly, dt):
    """gains whose update error x -> (I - K C) A x has the characteristic polynomial"""
    n = len(poly) - 1
    A, S = mats(dt, n)

    def char(v):
        K = S.dot(v).reshape(-1, 1)
        return np.poly((np.eye(n) - K.dot(np.eye(n)[:1])).dot(A))[1:]
    c0 = char(np.zeros(n))
    L = np.column_stack([char(e) - c0 for e in np.eye(n)])
    return np.linalg.solve(L, poly[1:] - c0)


def gen(g):
    n = g.choice([2, 3])
    dt = g.choice([1., .1, .5, 2.])
    return {'n': n, 'dt': dt, 'gains': place(poles(g, n), dt), 'jerk': g.choice([1., -2., .3])}


def make(c, gains=None):
    v = [float(t) for t in (c['gains'] if gains is None else gains)]
    if c['n'] == 2:
        return GHFilter(0., 0., c['dt'], *v)
    return GHKFilter(0., 0., 0., c['dt'], *v)


def out(f, n):
    return [f.x, f.dx] if n == 2 else [f.x, f.dx, f.ddx]


def check(c, ctx):
    n, dt = c['n'], c['dt']
    f = make(c)
    r, p = [], []
    for i in range(1200):
        f.update(1. if i == 0 else 0.)
        s = out(f, n)
        r.append(s)
        p.append(s[0] + dt * s[1] + (.5 * dt ** 2 * s[2] if n == 3 else 0.))
        if i > 20 and i % 20 == 0 and np.abs(np.array(r[-20:]) * [1., dt, dt ** 2][:n]).max() < 1e-13:
            break
    else:
        ctx.label('response does not settle')
        return
    r, p = np.array(r), np.array(p)
    v = (r ** 2).sum(axis=0)
    f = make(c)
    got = f.VRF()
    require(len(got) == n, 'VRF returns %r', got)
    for i in range(n):
        close(got[i], v[i], 'variance reduction of derivative %d' % i, 1e-5)
    close(f.VRF_prediction(), (p ** 2).sum(), 'variance reduction of the prediction', 1e-5)
    if n == 3 and abs(c['gains'][2]) > 1e-5:
        t = 0.
        for i in range(700):
            t = i * dt
            f.update(c['jerk'] * t ** 3 / 6.)
        e = f.x_prediction - c['jerk'] * t ** 3 / 6.
        close(e, f.bias_error(c['jerk']), 'bias under constant jerk', 1e-3, 1e-8 * abs(t ** 3))
    ctx.label('n%d' % n)
    ctx.nt()


def gen_design(g):
    return {'theta': g.choice([0., 1., .5, None]) or g.float(0., 1.), 'g': g.float(.02, .98),
            'dt': g.choice([1., .1, .5, 2.]), 'z': g.vec(g.int(2, 25), 10.), 'x0': g.vec(2, 5.),
            'bad': g.choice([-.1, 1.1, 5., -3.]), 'order': g.choice([0, 1, 4, 5])}


def transition(n, dt, gains):
    """the filter's own state map, measured column by column with a zero measurement"""
    cols = []
    for e in np.eye(n):
        f = (GHFilter if n == 2 else GHKFilter)(*([float(v) for v in e] + [dt] +
                                                 [float(v) for v in gains]))
        f.update(0.)
        cols.append(out(f, n))
    return np.array(cols).T


def check_design(c, ctx):
    th, dt = c['theta'], c['dt']
    for n in (2, 3):
        gains = critical_damping_parameters(th, n)
        require(len(gains) == n, 'critical damping of order %d returns %r', n, gains)
        M = transition(n, dt, gains)
        D = np.diag([1., dt, dt ** 2][:n])
        M = D.dot(M).dot(np.linalg.inv(D))
        close(np.poly(M), np.poly([th] * n), 'poles of the critically damped filter of order %d' % n,
              1e-9, 1.)
    close(critical_damping_parameters(th), critical_damping_parameters(th, 2), 'default order', 1e-15)
    raises(lambda: critical_damping_parameters(c['bad']), ValueError, 'theta %r' % c['bad'])
    raises(lambda: critical_damping_parameters(th, c['order']), ValueError, 'order %r' % c['order'])
    g = c['g']
    a, h = benedict_bornder_constants(g)
    require(a == g, 'Benedict-Bordner returns g=%r', a)
    close(h * (2. - g), g * g, 'Benedict-Bordner relation', 1e-12)
    a, h = benedict_bornder_constants(g, critical=True)
    hc = 2. - g - 2. * np.sqrt(1. - g)      # the critically damped value
    require(a == g and .5 * hc <= h <= hc * (1 + 1e-9),
            'critical Benedict-Bordner constants %r, %r (critical damping: %r)', a, h, hc)
    w = np.linalg.eigvals(transition(2, dt, (g, h)))
    require(np.abs(w.imag).max() < 1e-6 and w.real.min() > -1e-9 and w.real.max() <= 1.,
            'critical Benedict-Bordner filter rings or diverges: poles %r', w.tolist())
    a, h, k = optimal_noise_smoothing(g)
    require(a == g, 'optimal noise smoothing returns g=%r', a)
    close(g * (g + h + k), 2. * h, 'optimal noise smoothing: 2h = g(g+h+k)', 1e-9)
    close(4 * (1 - g) * h ** 2 + 2 * g * g * (2 - g) * h, 3 * g ** 4,
          'optimal noise smoothing: quadratic for h', 1e-9, g ** 2 * h)
    require(h > 0, 'optimal noise smoothing: h=%r', h)
    # least-squares gains: the filter is the line fit from the second sample on
    f = GHFilter(float(c['x0'][0]), float(c['x0'][1]), dt, 0., 0.)
    z = c['z']
    for i, v in enumerate(z):
        f.update(v, *least_squares_parameters(i))
        if i == 0:
            close(f.x, v, 'first least-squares estimate', 1e-10, 20.)
            continue
        t = np.arange(i + 1) * dt
        A = np.column_stack([np.ones(i + 1), t - t[-1]])
        s = np.linalg.lstsq(A, z[:i + 1], rcond=None)[0]
        close([f.x, f.dx * dt], [s[0], s[1] * dt], 'least-squares gains, sample %d' % i, 1e-8, 50.)
    ctx.label('theta end point' if th in (0., 1.) else 'theta inside')
    ctx.nt(0. < th < 1. and len(z) > 2)


def gen_disc(g):
    n = g.choice([2, 3])
    return {'n': n, 'theta': g.float(.05, .75), 'dt': g.choice([1., .1, 2.]),
            'z': g.vec(g.int(110, 140), 10.)}


def check_disc(c, ctx):
    """the critically damped filter minimises the error discounted by theta per step"""
    n, th, dt, z = c['n'], c['theta'], c['dt'], c['z']
    f = make(c, critical_damping_parameters(th, n))
    for v in z:
        f.update(v)
    N = len(z)
    r = np.arange(N)[::-1]
    if th ** N * N ** 2 > 1e-12:
        return
    A = np.column_stack([(-r * 1.) ** i / [1., 1., 2.][i] for i in range(n)])
    w = th ** (r / 2.)
    s = np.linalg.lstsq(A * w[:, None], z * w, rcond=None)[0]
    got = np.array(out(f, n)) * [1., dt, dt * dt][:n]
    close(got, s, 'critically damped filter against the discounted fit', 1e-6, 10.)
    ctx.label('n%d' % n)
    ctx.nt()


SUBS = [Sub('response', gen, check, 400), Sub('design', gen_design, check_design, 800),
        Sub('discounted', gen_disc, check_disc, 200)]
