"""Numeric and bookkeeping helpers against closed forms."""
import contextlib
import copy
import io
import math
import re
from collections import deque

import numpy as np
from filterpy import common as C
from filterpy import kalman as K
from filterpy.common.helpers import repr_string
from filterpy.gh import GHFilter, GHFilterOrder, GHKFilter
from filterpy.hinfinity import HInfinityFilter
from filterpy.kalman import KalmanFilter
from filterpy.leastsq import LeastSquaresFilter
from filterpy.memory import FadingMemoryFilter
from vlib import filters
from vlib.harness import Sub, close, require, raises, same

PROPERTY = 'H03'
RULE = ('Random polynomials, linear systems and smooth right-hand sides for the integrator; random '
        'diagonal matrices and stacks of row vectors; random pairs of filters that differ in chosen '
        'attributes; random values to print. Oracles: closed-form integrals, step halving, numpy '
        'inverses, explicit loops, the list of planted differences, numbers read back from the text. '
        'Non-trivial: degree or dimension above one, or at least one planted difference.')


# ------------------------------------------------------------- Runge-Kutta
def gen_rk(g):
    n = g.choice([0, 0, 1, 3])
    return {'n': n, 'kind': g.choice(['poly', 'linear', 'smooth', 'mixed']), 'deg': g.int(0, 3),
            'c': g.floats(4 * max(1, n), 3.), 'y': g.floats(max(1, n), 4.), 'x': g.float(-3, 3),
            'h': g.choice([.5, .1, 1., -.25, .01, 2.]), 'lam': g.float(-2, 2),
            'A': g.mat(max(1, n), max(1, n), .5), 'int': g.prob(2), 'steps': g.int(1, 5)}


def check_rk(c, ctx):
    n, h, x0 = c['n'], c['h'], c['x']
    y0 = float(c['y'][0]) if n == 0 else c['y'].copy()
    if c['int'] and n == 0:
        y0, x0 = int(round(y0)), int(round(x0))
    calls = []

    def seen(f):
        def g(y, x):
            calls.append(x)
            return f(y, x)
        return g
    co = c['c'].reshape(4, -1).copy()
    co[c['deg'] + 1:] = 0.
    co = co[:, 0] if n == 0 else co

    def poly(y, x):
        return sum(co[k] * x ** k for k in range(4))

    def integral(a, b):
        return sum(co[k] * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k in range(4))
    A = c['A'] if n else np.array([[c['lam']]])
    yin = copy.deepcopy(y0)
    if c['kind'] == 'poly':
        y, x = y0, x0
        for _ in range(c['steps']):
            y = C.runge_kutta4(y, x, h, seen(poly))
            x = x + h
        e = y0 + integral(x0, x)
        close(y, e, 'cubic polynomial integrated over %d steps of %r' % (c['steps'], h), 1e-10,
              max(1., np.abs(c['c']).max() * (abs(x0) + abs(h) * c['steps'] + 1) ** 4))
        lo, hi = min(x0, x), max(x0, x)
        require(all(lo - 1e-9 <= q <= hi + 1e-9 for q in calls), 'the derivative was evaluated at %r, outside '
                '%r..%r', calls, lo, hi)
    elif c['kind'] == 'linear':
        y = C.runge_kutta4(y0, x0, h, lambda y, x: c['lam'] * y if n == 0 else A.dot(y))
        M = np.eye(len(A))
        T = np.eye(len(A))
        for k in range(1, 5):
            T = T.dot(A * h) / k
            M = M + T
        e = M.dot(np.atleast_1d(np.asarray(y0, dtype=float)))
        close(np.atleast_1d(y), e, 'linear equation: truncated exponential', 1e-11, max(1., np.abs(y0).max()))
    elif c['kind'] == 'smooth':
        # y' = cos(x) y has y(x) = y0 exp(sin x - sin x0); halving the step divides the error by ~16
        def f(y, x):
            return math.cos(x) * y
        T = .8

        def run(k):
            y, x = (float(y0) if n == 0 else np.asarray(y0, dtype=float)), float(x0)
            for _ in range(k):
                y = C.runge_kutta4(y, x, T / k, f)
                x += T / k
            return y
        e = np.asarray(y0) * math.exp(math.sin(x0 + T) - math.sin(x0))
        s = max(np.abs(np.asarray(y0)).max(), 1e-12)
        errs = [np.abs(run(k) - e).max() / s for k in (4, 8, 16)]
        require(errs[1] <= 2e-6 and errs[2] <= 2e-7, 'errors %r at 4, 8, 16 steps are not fourth order', errs)
    else:
        # one step against the classical tableau on a right-hand side that uses y and x
        def f(y, x):
            return np.sin(y) + x * y - x
        k1 = h * f(y0, x0)
        k2 = h * f(y0 + .5 * k1, x0 + .5 * h)
        k3 = h * f(y0 + .5 * k2, x0 + .5 * h)
        k4 = h * f(y0 + k3, x0 + h)
        e = y0 + (k1 + 2 * k2 + 2 * k3 + k4) / 6.
        close(C.runge_kutta4(y0, x0, h, f), e, 'classical Runge-Kutta step', 1e-11,
              max(1., np.abs(k4).max(), np.abs(k3).max()))
        # a right-hand side that hands out an array it keeps
        kept = np.array(c['y'][::-1], dtype=float)
        for out in (kept, kept.copy()):
            before = out.copy()
            close(C.runge_kutta4(c['y'].copy(), x0, h, lambda y, x: out), c['y'] + h * before,
                  'Runge-Kutta step with a constant derivative', 1e-12, np.abs(c['y']).max() + np.abs(h * before).max())
            same(out, before, 'array returned by the derivative')
    same(y0, yin, 'initial value after integration')
    ctx.label(c['kind'], 'vector' if n else 'scalar')
    ctx.nt(c['deg'] > 1 or n > 1 or c['kind'] != 'poly')


# ------------------------------------------------------------- matrices
def gen_mat(g):
    n = g.int(1, 6)
    m = g.int(1, 7)
    return {'unit': 2. ** g.int(-90, 90) if g.prob(3) else 1., 'd': np.where(g.floats(n, 1.) < 0, -1., 1.) * np.array([g.logfloat(1e-3, 1e3) for _ in range(n)]),
            'int': g.prob(2), 'list': g.bool(), 'A': g.mat(m, n), 'B': g.mat(m, g.int(1, 4)), 'pb': g.choice(['none',
            'same', 'other'])}


def check_mat(c, ctx):
    d = c['d']
    if c['int']:
        d = np.where(np.round(d) == 0, 1, np.round(d)).astype(int)
    else:
        d = d * c['unit']
    S = np.diag(d)
    S0 = S.copy()
    r = C.inv_diagonal(S.tolist() if c['list'] else S)
    close(r, np.diag(1. / d), 'inverse of a diagonal matrix', 1e-14)
    for i in range(len(d)):
        close(r[i, i], 1. / d[i], 'inverse of element %d' % i, 1e-14)
    close(np.dot(r, S), np.eye(len(d)), 'product with the inverse', 1e-13)
    same(S, S0, 'matrix after inv_diagonal')
    A, B = c['A'], c['B']
    A0, B0 = A.copy(), B.copy()
    if c['pb'] == 'none':
        r = C.outer_product_sum(A)
        B = A
    elif c['pb'] == 'same':
        r = C.outer_product_sum(A, A)
        B = A
    else:
        r = C.outer_product_sum(A, B)
    e = np.zeros((A.shape[1], B.shape[1]))
    for a, b in zip(A, B):
        e += np.outer(a, b)
    close(r, e, 'sum of outer products', 1e-13, 1e-3)
    same(A, A0, 'rows after outer_product_sum')
    same(c['B'], B0, 'rows after outer_product_sum')
    ctx.nt(len(d) > 1)
    ctx.label(c['pb'])


# ------------------------------------------------------------- compare and copy
ATTRS = ['x', 'P', 'F', 'H', 'Q', 'R', 'K', 'S', 'y', 'z', 'dim_z', 'extra', '_private', 'only']


def gen_cmp(g):
    n, m = g.int(1, 3), g.int(1, 2)
    return {'n': n, 'm': m, 'x': g.vec(n), 'steps': [g.vec(m) for _ in range(g.int(0, 3))],
            'diff': sorted(set(g.choice(ATTRS) for _ in range(g.int(0, 4)))), 'eps': g.choice([1e-12, 1e-3, 1.]),
            'log': g.bool(), 'tol': g.choice([None, 1e-2])}


def filt(c):
    f = KalmanFilter(c['n'], c['m'])
    f.x = c['x'].reshape(-1, 1).copy()
    f.H = np.eye(c['m'], c['n'])
    f.extra = [1., 2.]
    f._private = 3.
    for z in c['steps']:
        f.predict()
        f.update(z)
    return f


def check_cmp(c, ctx):
    a, b = filt(c), filt(c)
    want = []
    for k in c['diff']:
        if k == 'z' and not c['steps']:
            continue
        if k == 'only':
            b.only = 1.
            continue
        if k == 'extra':
            b.extra = [1., 2., 3.]
        elif k == 'dim_z':
            b.dim_z += 1
        elif k == '_private':
            b._private = 99.
            continue
        else:
            setattr(b, k, np.asarray(getattr(b, k), dtype=float) + c['eps'])
        if k in ('extra', 'dim_z'):
            want.append(k)
        else:
            kw = {} if c['tol'] is None else {'atol': c['tol']}
            if not np.allclose(np.asarray(getattr(a, k), float), np.asarray(getattr(b, k), float), **kw):
                want.append(k)
    if c['tol'] is not None and 'dim_z' in want:
        pass
    kw = {} if c['tol'] is None else {'atol': c['tol']}
    buf = io.StringIO()
    keep = copy.deepcopy(a.__dict__)
    with contextlib.redirect_stdout(buf):
        r = C.compare_kf(a, b, log=c['log'], **kw)
        back = C.compare_kf(b, a, log=False, **kw)
    require((r is None) == (not want) and sorted(r or []) == sorted(want), 'compare_kf reports %r, the filters '
            'differ in %r', r, want)
    require(sorted(back or []) == sorted(want), 'compare_kf with the filters swapped reports %r, not %r', back, want)
    text = buf.getvalue()
    if c['log']:
        for k in want:
            require(k in text, 'the report does not mention %s: %r', k, text)
    if not c['log'] or not want:
        require(text == '', 'something was printed: %r', text)
    for k in ('x', 'P', 'F'):
        same(getattr(a, k), keep[k], k + ' after compare_kf')
    # copying the states leaves no difference in the common attributes, and no sharing
    only = getattr(b, 'only', None)
    C.copy_states(b, a)
    require(C.compare_kf(a, b, log=False) is None, 'differences after copy_states: %r', C.compare_kf(a, b, log=False))
    require(b._private == a._private, 'copy_states left _private at %r', b._private)
    require(getattr(b, 'only', None) == only, 'copy_states changed an attribute only the destination has')
    require(not hasattr(a, 'only'), 'copy_states added an attribute to the source')
    b.x[:] = 1e6
    b.P[:] = 1e6
    b.extra.append(5.)
    for k in ('x', 'P', 'F'):
        same(getattr(a, k), keep[k], k + ' of the source after the copy changed')
    require(a.extra == [1., 2.], 'the copy shares its list with the source')
    ctx.label('%d differences' % len(want))
    ctx.nt(len(want) > 0)


# ------------------------------------------------------------- printed forms
NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def gen_str(g):
    k = g.choice(['scalar', 'vec', 'col', 'mat', 'list', 'tuple', 'deque', 'empty', 'none', 'str', 'nested'])
    n, m = g.int(1, 4), g.int(1, 4)
    if k in ('col', 'list') and g.prob(3):
        n = g.int(11, 30)                # longer than a line
    return {'k': k, 'v': np.round(g.floats(n * m, 9.), 2).reshape(n, m), 'label': g.choice(['x', 'P_prior', '', None]),
            'pp': g.bool()}


def numbers(s):
    return [float(q) for q in re.findall(NUM, s)]


def check_str(c, ctx):
    k, v = c['k'], c['v']
    label = c['label']
    val = {'scalar': float(v[0, 0]), 'vec': v[0], 'col': v[:, :1], 'mat': v, 'list': [v[0], v[:, :1]] + v[:, 0].tolist(),
           'tuple': (1.5, v), 'deque': deque([v[0], 2.]), 'empty': [], 'none': None, 'str': 'abc',
           'nested': [[v[0]], [1., 2.]]}[k]
    if label in ('', None) and k in ('list', 'tuple', 'deque', 'nested', 'empty'):
        label = 'q'
    s = C.pretty_str(label, val)
    require(isinstance(s, str), 'pretty_str returned %r', s)
    if c['pp']:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            C.pprint(label, val)
        require(buf.getvalue() == s + '\n', 'pprint printed %r, not %r', buf.getvalue(), s)
    if label and k not in ('list', 'tuple', 'deque', 'nested'):
        require(s.startswith(label + ' = '), '%r does not start with the label', s)
        body = s[len(label) + 3:]
    else:
        body = s
    if k in ('scalar', 'vec', 'col', 'mat'):
        close(numbers(body), np.ravel(val), 'numbers read back from %r' % s, 1e-9, 1e-6)
        if k in ('col', 'mat') and len(v) > 1 and np.shape(val)[1] == 1:
            require(body.endswith('.T') and '\n' not in body, 'column vector printed as %r', s)
        elif k != 'scalar':
            require(not body.endswith('.T'), 'printed as transposed: %r', s)
        if k == 'mat' and v.shape[1] > 1:
            rows = body.split('\n')
            require(len(rows) == len(v), '%d rows printed for %d: %r', len(rows), len(v), s)
            for i, row in enumerate(rows):
                close(numbers(row), v[i], 'row %d of %r' % (i, s), 1e-9, 1e-6)
    elif k in ('list', 'tuple', 'deque', 'nested'):
        items = list(val)
        parts = [C.pretty_str('%s[%d]' % (label, i), q) for i, q in enumerate(items)]
        require(s == '\n'.join(parts), 'sequence printed as %r, its elements as %r', s, parts)
    elif k == 'empty':
        require(body == '[]', 'empty list printed as %r', s)
    else:
        require(body == str(val), 'printed as %r', s)
    ctx.label(k)
    ctx.nt(v.size > 1)


# ------------------------------------------------------------- printed forms of whole objects
SHOWN = {
    'kf': 'dim_x dim_z dim_u x P x_prior P_prior x_post P_post F Q R H K y S SI M B z log-likelihood '
          'likelihood mahalanobis alpha inv',
    'srkf': 'dim_x dim_z dim_u x P F Q R H K y S SI M B',
    'if': 'dim_x dim_z dim_u x P_inv x_prior P_inv_prior F _F_inv Q R_inv H K y z S B log-likelihood '
          'likelihood inv',
    'ekf': 'x P x_prior P_prior F Q R K y S likelihood log-likelihood mahalanobis',
    'fkf': 'dim_x dim_z dim_u x P F Q R H K y S B likelihood log-likelihood mahalanobis alpha',
    'ukf_merwe': 'x P x_prior P_prior Q R S K y log-likelihood likelihood mahalanobis sigmas_f '
                 'sigmas_h Wm Wc residual_x residual_z msqrt hx fx x_mean z_mean',
    'ckf': 'dim_x dim_z dt x P Q R K y log-likelihood likelihood mahalanobis',
    'enkf': 'dim_x dim_z dt x P x_prior P_prior Q R K S sigmas hx fx',
    'hinf': 'dim_x dim_z dim_u gamma x P F Q V W K y',
    'fls': 'dim_x dim_z N x x_s P F Q R H K y S B',
    'imm': 'x P x_prior P_prior x_post P_post N mu M cbar likelihood omega',
    'mmae': 'dim_x x P p',
    'merwe': 'n alpha beta kappa Wm Wc subtract sqrt', 'julier': 'n kappa Wm Wc subtract sqrt',
    'simplex': 'n alpha Wm Wc subtract sqrt',
    'gh': 'dt g h x dx x_prediction dx_prediction y z',
    'ghk': 'dt g h k x dx ddx x_prediction dx_prediction ddx_prediction y z',
    'gho': 'dt order x g h k y z', 'lsq': 'dt sigma _order x K', 'fm': 'dt order beta x P e'}


def gen_repr(g):
    c = filters.model(g, 4, 3)
    c['kind'] = g.choice(sorted(SHOWN))
    c['alpha'], c['beta'], c['order'] = g.choice([1., 1.5]), g.float(.1, .9), g.int(0, 2)
    c['zs'] = [g.vec(c['m'], 9.) for _ in range(g.int(0, 4))]
    c['private'] = g.bool()
    return c


def make_repr(c):
    """an object of the class after the history"""
    k, n, m = c['kind'], c['n'], c['m']
    if k in filters.ALL:
        a = filters.A(k, c)
        for z in c['zs']:
            a.predict()
            a.update(z)
        return a.f
    if k in ('merwe', 'julier', 'simplex'):
        return {'merwe': lambda: K.MerweScaledSigmaPoints(n, .5, 2., 1.),
                'julier': lambda: K.JulierSigmaPoints(n, 1.),
                'simplex': lambda: K.SimplexSigmaPoints(n, 2.)}[k]()
    if k in ('gh', 'ghk', 'gho', 'lsq', 'fm'):
        o = c['order']
        f = {'gh': lambda: GHFilter(1., 2., .5, .6, .2), 'ghk': lambda: GHKFilter(1., 2., 3., .5, .6, .2, .1),
             'gho': lambda: GHFilterOrder(np.array([1., 2., 3.][:o + 1]), .5, o, .6, .2, .1),
             'lsq': lambda: LeastSquaresFilter(.5, o, 2.),
             'fm': lambda: FadingMemoryFilter([1., 2., 3.][:o + 1], .5, o, c['beta'])}[k]()
        for z in c['zs']:
            f.update(float(z[0]))
        return f
    col = dict(c, layout='col', B=None)
    if k in ('imm', 'mmae'):
        fs = [filters.A('kf', col).f, filters.A('kf', dict(col, Q=4. * c['Q'])).f]
        f = K.IMMEstimator(fs, [.25, .75], np.array([[.75, .25], [.5, .5]])) if k == 'imm' else \
            K.MMAEFilterBank(fs, [.25, .75], n, H=None)
        for z in c['zs']:
            f.predict()
            f.update(z.reshape(-1, 1))
        return f
    if k == 'enkf':
        f = K.EnsembleKalmanFilter(c['x0'].copy(), c['P0'].copy(), m, .5, 4, lambda x: c['H'].dot(x),
                                   lambda x, dt: c['F'].dot(x))
    elif k == 'hinf':
        f = HInfinityFilter(n, m, 0, .0625)
    else:
        f = K.FixedLagSmoother(n, m, 2)
    if k != 'enkf':
        f.F, f.H, f.P = c['F'], c['H'], c['P0'].copy()
    if k == 'hinf':
        f.W = c['Q']
    for z in c['zs']:
        if k == 'fls':
            f.smooth(z.reshape(-1, 1))
        else:
            f.predict()
            f.update(z if k == 'enkf' else z.reshape(-1, 1))
    return f


def check_repr(c, ctx):
    st = np.random.get_state()
    try:
        f = make_repr(c)
    finally:
        np.random.set_state(st)
    k = c['kind']
    s = repr(f)
    names = SHOWN[k].split()
    lines = s.split('\n')
    require(lines[0] == type(f).__name__ + ' object', 'a %s prints itself as %r', type(f).__name__, lines[0])
    alias = {'log-likelihood': 'log_likelihood'}
    if k == 'ckf':
        alias['dt'] = '_dt'
    pos = '\n' + s + '\n'
    for q in names:
        e = C.pretty_str(q, getattr(f, alias.get(q, q)))
        require('\n' + e + '\n' in pos, '%s: the printed form lacks %r: %r', type(f).__name__, e[:200], s)
    # whatever else is shown has the value of the attribute of that name
    for line in lines[1:]:
        w = re.match(r'^([A-Za-z_][A-Za-z_0-9]*)(\[\d+\])? = ', line)
        if w and not (w.group(1) in alias):
            require(hasattr(f, w.group(1)), '%s shows %r', type(f).__name__, line)
            e = C.pretty_str(w.group(1), getattr(f, w.group(1)))
            require('\n' + e + '\n' in pos, '%s shows %r, its value prints as %r', type(f).__name__, line,
                    e[:200])
    r = repr_string(f, private=c['private']) if not c['private'] else repr_string(f)
    require(r.split('\n')[0] == lines[0], 'repr_string starts with %r', r.split('\n')[0])
    for q in [q for q in vars(f) if c['private'] or q[0] != '_']:
        v = getattr(f, q)
        if type(v).__name__ in ('method', 'function'):
            continue
        e = C.pretty_str(q, v)
        require('\n' + e + '\n' in '\n' + r + '\n', 'repr_string of %s lacks %r', type(f).__name__, e[:200])
    if not c['private']:
        require(not re.search(r'^_', r, re.M), 'repr_string without private attributes shows one: %r', r[:300])
    ctx.label(k)
    ctx.nt(len(c['zs']) > 0)


SUBS = [Sub('runge_kutta', gen_rk, check_rk, quick=800),
        Sub('matrices', gen_mat, check_mat, quick=600),
        Sub('compare_copy', gen_cmp, check_cmp, quick=400),
        Sub('printed', gen_str, check_str, quick=500),
        Sub('objects', gen_repr, check_repr, quick=500)]
