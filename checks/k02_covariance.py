"""Covariances stay valid and updates never lose information, however ill-conditioned."""
import warnings
from fractions import Fraction
import numpy as np
from filterpy import kalman
from filterpy.kalman import (KalmanFilter, SquareRootKalmanFilter, ExtendedKalmanFilter,
                             FadingKalmanFilter)
from vlib import ref
from vlib.harness import Sub, require, psd_ok, Violation

PROPERTY = 'K02'
RULE = ('Long predict/update histories (up to 40 steps) with prior/measurement variance ratios up '
        'to 1e16 through KalmanFilter, sequential updates, the functions, EKF, fading and '
        'square-root filters; non-trivial: a ratio above 1e6 and at least three updates.')

KINDS = ['kf', 'seq', 'fun', 'ekf', 'fkf', 'srkf']


def orth(g, n):
    a = g.floats(n * n, 1.).reshape(n, n) + 1e-3 * np.eye(n)
    q, _ = np.linalg.qr(a + 0.1 * np.diag(np.arange(1, n + 1)))
    return q


def gen(g):
    n = g.int(1, 4)
    m = g.int(1, n)
    c = {'n': n, 'm': m, 'kind': g.choice(KINDS), 'axis': g.bool()}
    c['logP'] = g.float(0., 8.) if c['axis'] else g.float(0., 6.)
    c['logR'] = g.float(-8., 0.) if c['axis'] else g.float(-1., 0.)
    c['P0'] = np.diag(1.0 + np.abs(g.floats(n, 3.))) if c['axis'] else g.spd(n, 1., 1.)
    c['P0'] = c['P0'] * 10. ** c['logP']
    if c['axis']:
        p = g.perm(n)[:m]
        c['H'] = np.eye(n)[p] * g.choice([1., 2., .5])
    else:
        c['H'] = orth(g, n)[:m]
    c['R'] = np.diag(1.0 + np.abs(g.floats(m, 2.))) * 10. ** c['logR']
    c['F'] = np.diag(g.choice([1., .9, 1.1, -1., .5]) * np.ones(n)) if c['axis'] else g.trans(n)
    c['Qs'] = g.choice([0., 1e-10, 1e-6, 1e-3, 1.]) if c['kind'] != 'srkf' else \
        g.choice([1e-10, 1e-6, 1e-3, 1.])
    c['steps'] = [g.choice(['u', 'p', 'u', 'u', 'N']) for _ in range(g.int(3, 40))]
    c['zs'] = g.floats(8, 30.)
    # the noise given with each update instead of stored in the filter
    c['over'] = g.choice([None, None, 1e-6, 1e3, 1e9])
    if c['over'] and g.prob(4):
        c['R'] = np.eye(m) * c['R'][0, 0]
        c['scalar'] = True
    return c


class Run(object):
    def __init__(self, c):
        self.c = c
        n, m = c['n'], c['m']
        k = c['kind']
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.f = {'kf': lambda: KalmanFilter(n, m), 'seq': lambda: KalmanFilter(n, m),
                      'ekf': lambda: ExtendedKalmanFilter(n, m),
                      'fkf': lambda: FadingKalmanFilter(1.01, n, m),
                      'srkf': lambda: SquareRootKalmanFilter(n, m), 'fun': lambda: None}[k]()
        self.Q = np.eye(n) * c['Qs']
        if self.f is None:
            self.x, self.Pm = np.zeros((n, 1)), c['P0'].copy()
        else:
            f = self.f
            f.P, f.R, f.F, f.Q = c['P0'].copy(), c['R'] * (c['over'] or 1.), c['F'].copy(), self.Q
            if k != 'ekf':
                f.H = c['H'].copy()

    def P(self):
        return self.Pm if self.f is None else self.f.P

    def predict(self):
        if self.f is None:
            self.x, self.Pm = kalman.predict(self.x, self.Pm, self.c['F'], self.Q)
        else:
            self.f.predict()

    def update(self, z):
        c, k = self.c, self.c['kind']
        kw = {}
        if c['over']:
            R = c['R']
            if k == 'srkf':
                R = np.sqrt(R)           # diagonal
            kw['R2' if k == 'srkf' else 'R'] = float(R[0, 0]) if c.get('scalar') else R
        if k == 'fun':
            self.x, self.Pm = kalman.update(self.x, self.Pm, z, c['R'], c['H'])
        elif k == 'ekf':
            self.f.update(z, lambda x: c['H'], lambda x: c['H'].dot(x), **kw)
        elif k == 'seq' and z is not None:
            for i in range(c['m']):
                if c['over']:
                    kw = {'R_i': c['R'][i:i + 1, i:i + 1]}
                self.f.update_sequential(i, z[i:i + 1], **kw)
        else:
            if k == 'seq':
                kw = {}
            self.f.update(z, **kw)


def check(c, ctx):
    r = Run(c)
    H, R = c['H'], c['R']
    eps = 2.3e-16
    nu = 0
    ever = np.abs(c['P0']).max()
    for i, s in enumerate(c['steps']):
        before = np.array(r.P())
        if s == 'p':
            r.predict()
        elif s == 'N':
            r.update(None)
        else:
            z = np.resize(np.roll(c['zs'], i), (c['m'], 1))
            r.update(z)
            nu += 1
        P = np.array(r.P())
        big = np.abs(before).max()
        ever = max(ever, big)
        round_off = 0. if c['axis'] else 1e6 * eps * ever
        psd_ok(P, 'covariance after step %d (%s)' % (i, s), 1e-9, round_off * 1e9)
        if s == 'p':
            w = np.linalg.eigvalsh(ref.sym(P - r.Q)).min()
            require(w >= -1e-9 * np.abs(P).max() - round_off, 'predicted covariance %s is below the process '
                    'noise', P.tolist())
            if c['axis']:
                # every component on its own scale
                a = 1.01 if c['kind'] == 'fkf' else 1.
                want = (a * np.diag(c['F'])) ** 2 * np.diag(before) + np.diag(r.Q)
                require(np.all(np.abs(np.diag(P) - want) <= 1e-6 * want), 'predicted variances %s, '
                        'expected %s', np.diag(P).tolist(), want.tolist())
        if s == 'u':
            w = np.linalg.eigvalsh(ref.sym(before - P)).min()
            require(w >= -1e-9 * big - round_off, 'update %d increased the covariance: eigenvalue %r of the '
                    'decrease; before %s after %s', i, w, before.tolist(), P.tolist())
            M = H.dot(P).dot(H.T)
            slack = 1e-6 * np.abs(R).max() + round_off
            require(np.linalg.eigvalsh(ref.sym(M)).min() >= -slack,
                    'measured directions have negative variance: %s', M.tolist())
            # independent directions: at most the measurement noise remains
            require(np.linalg.eigvalsh(ref.sym(R - M)).min() >= -slack,
                    'after an update with noise %s the measured directions have covariance %s',
                    R.tolist(), M.tolist())
            if c['axis']:
                # exact remaining variance of a measured direction, also when tiny
                want = np.diag(before).copy()
                for q, row in enumerate(H):
                    k = int(np.argmax(np.abs(row)))
                    want[k] = 1. / (1. / want[k] + row[k] ** 2 / R[q, q])
                got = np.diag(P)
                require(np.all(np.abs(got - want) <= 1e-6 * want + (
                    1e3 * eps * big if c['kind'] == 'srkf' else 0.)),
                        'variances after the update %s, expected %s', got.tolist(), want.tolist())
    ratio = np.abs(c['P0']).max() / np.abs(R).max()
    ctx.label(c['kind'], 'own noise' if c['over'] else '', 'ratio1e%d' % (2 * int(np.log10(max(ratio, 1.)) / 2)))
    ctx.nt(ratio > 1e6 and nu >= 3)


# ------------------------------------------------ precision of the square root
def gen_root(g):
    n = g.int(1, 3)
    m = g.int(1, n)
    e = g.choice([9, 9, 6, 3, 1])
    c = {'n': n, 'm': m, 'P': [10. ** g.int(-e, e) for _ in range(n)],
         'Q': [10. ** g.int(-e, min(e, 2)) for _ in range(n)], 'R': [10. ** g.int(-e, e) for _ in range(m)],
         'F': np.eye(n) * g.choice([1., .5, 2.]) + np.round(8 * g.mat(n, n, 1.)) / 8 * g.int(0, 1),
         'H': np.round(8 * g.mat(m, n, 1.)) / 8, 'steps': [g.choice('pu') for _ in range(g.int(1, 5))]}
    return c


def fr(M):
    return [[Fraction(float(v)) for v in row] for row in np.atleast_2d(M)]


def fmul(A, B):
    return [[sum((a * b for a, b in zip(row, col)), Fraction(0)) for col in zip(*B)] for row in A]


def fT(A):
    return [list(r) for r in zip(*A)]


def fadd(A, B, s=1):
    return [[a + s * b for a, b in zip(r, q)] for r, q in zip(A, B)]


def finv(A):
    n = len(A)
    M = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    for i in range(n):
        k = next(k for k in range(i, n) if M[k][i] != 0)
        M[i], M[k] = M[k], M[i]
        M[i] = [v / M[i][i] for v in M[i]]
        for k in range(n):
            if k != i and M[k][i] != 0:
                M[k] = [a - M[k][i] * b for a, b in zip(M[k], M[i])]
    return [r[n:] for r in M]


def check_root(c, ctx):
    """against exact rational arithmetic: the factor is accurate to its own condition number, which
    is the square root of that of the covariance"""
    n = c['n']
    f = SquareRootKalmanFilter(n, c['m'])
    f.P, f.Q, f.R, f.F, f.H = np.diag(c['P']), np.diag(c['Q']), np.diag(c['R']), c['F'], c['H']
    P, Q, R, F, H = (fr(M) for M in (np.diag(c['P']), np.diag(c['Q']), np.diag(c['R']), c['F'], c['H']))
    worst = 0.
    size = max(c['P'] + c['Q'] + c['R']) ** .5
    for i, s in enumerate(c['steps']):
        if s == 'p':
            f.predict()
            P = fadd(fmul(fmul(F, P), fT(F)), Q)
        else:
            f.update(np.zeros((c['m'], 1)))
            PHT = fmul(P, fT(H))
            P = fadd(P, fmul(fmul(PHT, finv(fadd(fmul(H, PHT), R))), fT(PHT)), -1)
        L = np.asarray(f.P1_2)
        require(np.isfinite(L).all(), 'factor after step %d: %s', i, L.tolist())
        sv = np.linalg.svd(L, compute_uv=False)
        size = max(size * 3, sv[0]) if s == 'p' else size
        if sv[-1] <= 1e-11 * size:
            break
        Li = finv(fr(L))
        M = np.array([[float(v) for v in r] for r in fmul(fmul(Li, P), fT(Li))])
        err = np.abs(M - np.eye(n)).max()
        worst = max(worst, err / (size / sv[-1]))
        require(err <= 1e-12 * size / sv[-1], 'step %d (%s): the factor %s is off by %r of the covariance; '
                'size %r, smallest %r', i, c['steps'][:i + 1], L.tolist(), err, size, sv[-1])
    ctx.label('worst 1e%d' % np.ceil(np.log10(worst + 1e-30)))
    ctx.nt(n > 1 and max(c['P']) > 1e6 * min(c['P']) and len(c['steps']) > 1)


SUBS = [Sub('valid', gen, check, 4000), Sub('root', gen_root, check_root, 2500)]
