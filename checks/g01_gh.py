"""g-h family: every update follows the kinematic prediction and the gains of that call."""
import numpy as np
from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
from filterpy.common import Saver
from vlib.harness import Sub, close, require, same

PROPERTY = 'G01'
RULE = ('Random gains, time steps, scalar/array states, per-call gains, attribute changes and data '
        'sequences for the g-h, g-h-k and order-selectable filters, against one explicit recursion; '
        'batch calls against step-by-step calls; non-trivial: at least two updates with a non-zero '
        'residual.')


def gen(g):
    k = g.choice(['gh', 'ghk', 'order0', 'order1', 'order2'])
    n = 0 if k.startswith('order') else g.choice([0, 0, 1, 2, 3])
    c = {'kind': k, 'n': n, 'dt': g.choice([1., .1, .5, 2., 3.]), 'int': g.prob(2),
         'g': g.float(0., 1.5), 'h': g.float(0., 1.), 'k': g.float(0., .5), 'ops': [],
         'vec0': g.bool()}
    d = max(1, n)
    c['x'] = [g.ints(d, 5) if c['int'] else g.vec(d) for _ in range(3)]
    for _ in range(g.int(1, 8)):
        o = {'z': g.vec(d, 10.), 'g': g.choice([None, None, 0., .3, 1.]),
             'h': g.choice([None, None, 0., .2, 1.]), 'k': g.choice([None, None, 0., .1]),
             'set': g.choice([None, None, None, 'dt', 'g', 'h', 'k', 'x']), 'zero': g.prob(2),
             'pos': g.bool(), 'zi': g.bool()}
        o['v'] = g.float(.1, 2.)
        c['ops'].append(o)
    return c


def val(v, n, i):
    """value as the caller would give it: a number, or an array"""
    if n == 0:
        return int(v[0]) if i else float(v[0])
    return v.astype(int) if i else v.copy()


def make(c):
    n, i = c['n'], c['int']
    x = [val(v, n, i) for v in c['x']]
    if c['kind'] == 'gh':
        return GHFilter(x[0], x[1], c['dt'], c['g'], c['h']), 1
    if c['kind'] == 'ghk':
        return GHKFilter(x[0], x[1], x[2], c['dt'], c['g'], c['h'], c['k']), 2
    order = int(c['kind'][-1])
    if c['vec0']:
        x0 = np.array([float(v) for v in x[:order + 1]])
        x0 = x0.astype(int) if i else x0
    else:
        x0 = x[0]
    kw = {}
    if order > 0:
        kw['h'] = c['h']
    if order > 1:
        kw['k'] = c['k']
    return GHFilterOrder(x0, c['dt'], order, c['g'], **kw), order


def state(f, c, order):
    if c['kind'].startswith('order'):
        return [np.array([v]) for v in np.asarray(f.x, dtype=float)]
    s = [f.x, f.dx] + ([f.ddx] if order == 2 else [])
    return [np.asarray(v, dtype=float).ravel() for v in s]


def step(s, z, dt, g, h, k):
    """textbook g-h-k recursion; s = [x, dx, ddx] truncated to the order"""
    p = [v.copy() for v in s]
    if len(s) > 1:
        p[0] = p[0] + dt * s[1]
    if len(s) > 2:
        p[0] = p[0] + .5 * dt ** 2 * s[2]
        p[1] = p[1] + dt * s[2]
    y = z - p[0]
    gain = [g, h / dt, 2. * k / dt ** 2]
    return [a + b * y for a, b in zip(p, gain)], p, y


def check(c, ctx):
    f, order = make(c)
    s = [np.asarray(v, dtype=float).ravel() for v in c['x'][:order + 1]]
    if c['kind'].startswith('order') and not c['vec0']:
        s = [s[0]] + [np.zeros(1)] * order
    q = {'g': c['g'], 'h': c['h'], 'k': c['k'], 'dt': c['dt']}
    nz = 0
    for o in c['ops']:
        w = o['set']
        if w == 'x':
            s[0] = s[0] + o['v']
            if c['kind'].startswith('order'):
                f.x[0] = s[0][0]
            else:
                f.x = f.x + o['v']
        elif w == 'dt' or w == 'g' or (w == 'h' and order > 0) or (w == 'k' and order > 1):
            setattr(f, w, o['v'])
            q[w] = o['v']
        z = o['z'].copy()
        use = {}
        pos = []
        for name in 'ghk'[:order + 1]:
            if o[name] is not None:
                use[name] = o[name]
        eff = dict(q)
        eff.update(use)
        if o['zero']:
            z = step(s, z, eff['dt'], eff['g'], eff['h'], eff['k'])[1][0]
        elif o['zi']:
            z = np.round(z)
        s, p, y = step(s, z, eff['dt'], eff['g'], eff['h'], eff['k'])
        zz = val(z, c['n'], o['zi'] and not o['zero'])
        if o['pos']:
            pos = [use.pop(n, None) for n in 'ghk'[:order + 1]]
        r = f.update(zz, *pos, **use)
        sc = max(1., max(np.abs(v).max() for v in s + p), np.abs(z).max())
        if sc > 1e8:
            return
        got = state(f, c, order)
        for i, name in enumerate(['position', 'velocity', 'acceleration'][:order + 1]):
            close(got[i], s[i], name, 1e-10, sc)
            if o['zero']:
                close(got[i], p[i], name + ' with a zero residual', 1e-9, sc)
        close(np.ravel(f.y), y, 'residual', 1e-10, sc, shape=False)
        close(np.ravel(np.asarray(f.z, dtype=float)), z, 'recorded measurement', 1e-12)
        if not c['kind'].startswith('order'):
            close(np.ravel(f.x_prediction), p[0], 'predicted position', 1e-10, sc)
            close(np.ravel(f.dx_prediction), p[1], 'predicted velocity', 1e-10, sc)
            if order == 2:
                close(np.ravel(f.ddx_prediction), p[2], 'predicted acceleration', 1e-10, sc)
            close(np.ravel(r[0]), s[0], 'returned position', 1e-10, sc)
            close(np.ravel(r[1]), s[1], 'returned velocity', 1e-10, sc)
        for name in ['g'] + ['h'] * (order > 0) + ['k'] * (order > 1) + ['dt']:
            require(getattr(f, name) == q[name], 'attribute %s changed to %r', name, getattr(f, name))
        nz += bool(np.abs(y).max() > 1e-9)
        ctx.label('override' if o['g'] is not None else 'own gains')
    ctx.label(c['kind'], 'array' if c['n'] else 'number')
    ctx.nt(nz >= 2)


def gen_batch(g):
    c = gen(g)
    c['kind'] = g.choice(['gh', 'ghk'])
    c['n'] = 0
    N = g.int(0, 10)
    c['data'] = g.vec(N, 10.)
    c['form'] = g.choice(['array', 'list', 'int'])
    c['pred'] = g.bool()
    c['saver'] = g.bool()
    return c


def check_batch(c, ctx):
    f, order = make(c)
    data = c['data']
    if c['form'] == 'list':
        data = [float(v) for v in data]
    elif c['form'] == 'int':
        data = [int(round(v)) for v in data]
    before = {k: v for k, v in vars(f).items()}
    kw = {}
    if c['saver'] and c['kind'] == 'gh':
        kw['saver'] = Saver(f)
    r = f.batch_filter(data, save_predictions=True, **kw) if c['pred'] else \
        f.batch_filter(data, **kw)
    res, pred = r if c['pred'] else (r, None)
    for k, v in before.items():
        same(getattr(f, k), v, 'attribute %s after a batch' % k)
    if kw:
        require(len(kw['saver']) == len(data), 'saver has %d entries for %d data', len(kw['saver']),
                len(data))
    s = [np.asarray(v, dtype=float).ravel() for v in c['x'][:order + 1]]
    require(np.shape(res) == (len(data) + 1, 2), 'results have shape %s', np.shape(res))
    close(res[0], [s[0][0], s[1][0]], 'first row', 1e-12)
    one, _ = make(c)
    for i, z in enumerate(data):
        s, p, y = step(s, np.array([float(z)]), c['dt'], c['g'], c['h'], c['k'])
        sc = max(1., max(np.abs(v).max() for v in s + p))
        if sc > 1e8:
            return
        one.update(z)
        close(res[i + 1], [s[0][0], s[1][0]], 'row %d' % (i + 1), 1e-9, sc)
        close(res[i + 1], [one.x, one.dx], 'row %d against update()' % (i + 1), 1e-9, sc)
        if pred is not None:
            close(pred[i], p[0][0], 'prediction %d' % i, 1e-9, sc)
    if pred is not None:
        require(np.shape(pred) == (len(data),), 'predictions have shape %s', np.shape(pred))
    ctx.label(c['kind'], c['form'])
    ctx.nt(len(data) >= 2)


SUBS = [Sub('updates', gen, check, 2500), Sub('batch', gen_batch, check_batch, 1000)]
