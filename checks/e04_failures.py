"""A step that fails leaves the estimate as it was, and the estimator usable."""
import warnings
import numpy as np
from vlib import filters, lin
from vlib.harness import Sub, same

PROPERTY = 'E04'
RULE = ('Histories on every estimator with failing calls put in between: measurements of '
        'the wrong size, text, user functions that raise at a random call, an inversion function that '
        'raises, singular innovations; the estimate after each failure and the rest of the run are '
        'compared with the same run without the failing calls; non-trivial: at least one call failed '
        'and a real measurement followed.')

KINDS = list(filters.ALL) + ['enkf', 'hinf', 'fls', 'gh', 'ghk', 'order', 'memory', 'lsq']
EST = ('x', 'P', 'P_inv', 'dx', 'ddx', 'sigmas', 'sigmas_f', 'n')
OUT = EST + ('x_prior', 'P_prior', 'x_post', 'P_post', 'K', 'S', 'y', 'log_likelihood', 'mahalanobis')


class Fault(Exception):
    pass


class Trap(object):
    """wraps a function: raises at call number `at` while armed"""

    def __init__(self, fn):
        self.fn, self.at, self.hit = fn, None, False

    def __call__(self, *a, **k):
        if self.at is not None:
            self.at -= 1
            if self.at < 0:
                self.hit = True
                raise Fault('injected')
        return self.fn(*a, **k)


def gen(g):
    c = filters.model(g, 3, 2)
    c['who'] = g.choice(KINDS)
    c['order'], c['scalar'], c['seed'] = g.int(0, 2), g.bool(), g.int(0, 999)
    c['alpha'] = g.choice([1., 1.1])
    c['hist'] = filters.history(g, c, 2, 6, 1)
    c['bad'] = [[g.choice(['', '', 'size', 'text', 'trap', 'trap', 'inv', 'singular', 'noise']) for _ in range(2)]
                for _ in c['hist']]
    c['at'] = [g.int(0, 7) for _ in c['hist']]
    c['extra'] = g.int(1, 3)
    return c


def make(c):
    who = c['who']
    o = filters.A(who, c) if who in filters.ALL else filters.W(who, c)
    o.traps = []
    if who in filters.SIGMA or who == 'enkf':
        for k in ('fx', 'hx'):
            t = Trap(getattr(o.f, k))
            setattr(o.f, k, t)
            o.traps.append(t)
    return o


def snap(f, names):
    out = {}
    for k in names:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                v = getattr(f, k)
            except (AttributeError, np.linalg.LinAlgError, TypeError, ValueError):
                continue
        if v is None or callable(v):
            continue
        v = np.array(v, dtype=object)
        if any(t is None for t in v.ravel()):
            continue
        out[k] = np.array(v, dtype=float)
    return out


def fail(o, c, i, j):
    """one call that may fail; True if it did"""
    who, f, m, how = c['who'], o.f, c['m'], c['bad'][i][j]
    z = np.arange(1., m + 1.) * .5
    lay = c['layout'] if who in filters.COLUMN else '1d'
    traps = list(o.traps)
    old = None
    try:
        if how == 'size' and m > 1:
            # with one element, broadcasting lets it through to the state update, which is independent
            # of the covariance update: their order is nobody's business
            big = np.arange(float(m + c['extra']))
            if who in filters.COLUMN:
                o.update(None, zraw=lin.shape_x(big, lay))
            elif who in ('gh', 'ghk') and not c['scalar']:
                f.update(np.ones(c['n'] + c['extra'] + 1))
            elif who in ('hinf', 'fls'):
                (f.update if who == 'hinf' else f.smooth)(big.reshape(1, -1))
            elif who in filters.SIGMA or who == 'enkf':
                f.update(big)
        elif how == 'text':
            (f.smooth if who == 'fls' else f.update)(*(['word'] + ([o.jac, o.hx] if who == 'ekf' else [])))
        elif how == 'trap':
            if who == 'ekf':
                t = Trap(o.hx), Trap(o.jac)
                t[j].at = 0
                traps = list(t)
                f.update(lin.shape_x(z, lay), t[1], t[0])
            elif o.traps:
                o.traps[j].at = c['at'][i] % (c['n'] + 1 if who == 'ukf_simplex' else 2 * c['n'])
                np.random.seed(3)
                f.predict() if j == 0 else f.update(z)
        elif how == 'inv' and hasattr(f, 'inv') and not (who == 'if'):
            old = f.inv
            t = Trap(old)
            t.at = 0
            f.inv = t
            np.random.seed(3)
            if who == 'ekf':
                f.update(lin.shape_x(z, lay), o.jac, o.hx)
            else:
                f.update(lin.shape_x(z, lay))
        elif how == 'singular' and who in ('kf', 'fkf', 'ekf'):
            H = np.zeros((m, c['n']))
            R = np.zeros((m, m))
            if who == 'kf':
                f.update(lin.shape_x(z, lay), R=R, H=H)
            elif who == 'ekf':
                f.update(lin.shape_x(z, lay), lambda x: H, lambda x: H.dot(x), R=R)
            else:
                keep, f.H = f.H, H
                try:
                    f.update(lin.shape_x(z, lay), R=R)
                finally:
                    f.H = keep
        elif how == 'noise' and who in ('kf', 'fkf', 'ekf') + filters.SIGMA:
            R = np.eye(m + 1)
            if who == 'ekf':
                f.update(lin.shape_x(z, lay), o.jac, o.hx, R=R)
            else:
                f.update(lin.shape_x(z, lay), R=R)
        return False
    except (Fault, ValueError, TypeError, IndexError, AssertionError, AttributeError,
            np.linalg.LinAlgError):
        return True
    finally:
        for t in traps:
            t.at = None
        if old is not None:
            f.inv = old


def check(c, ctx):
    who = c['who']
    failed, real = set(), False
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        clean, hurt = make(c), make(c)
        for i, (u, z) in enumerate(c['hist']):
            for j in (0, 1):
                if c['bad'][i][j]:
                    before = snap(hurt.f, EST)
                    how = '%s, %s' % (c['bad'][i][j], ('predict', 'update')[j])
                    if fail(hurt, c, i, j):
                        failed.add(c['bad'][i][j])
                        after = snap(hurt.f, EST)
                        for k in before:
                            same(after.get(k), before[k], '%s: %s after a failed call (%s)' % (who, k, how))
                    elif any(k not in before or np.any(v != before[k]) for k, v in snap(hurt.f, EST).items()):
                        # it was accepted: so it is a step like any other
                        ctx.label(who, 'accepted')
                        return
                for o in (clean, hurt):
                    o.predict(u) if j == 0 else o.update(z)
            if failed and z is not None:
                real = True
            a, b = snap(clean.f, OUT), snap(hurt.f, OUT)
            for k in a:
                if z is None and k not in EST:
                    continue
                same(b.get(k), a[k], '%s: %s at step %d, after failed calls (%s)' % (who, k, i, sorted(failed)))
    ctx.label(who, *sorted(failed))
    ctx.nt(real)


SUBS = [Sub('steps', gen, check, 5000)]
