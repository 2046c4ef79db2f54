"""Discretisation: exact transition matrices and noise for every model, dimension and time step."""
import math
import numpy as np
import scipy.linalg
from filterpy.common import (Q_discrete_white_noise, Q_continuous_white_noise,
                             van_loan_discretization, linear_ode_discretation, order_by_derivative)
from vlib.harness import Sub, close, require, raises

PROPERTY = 'D01'
RULE = ('Random system matrices, noise inputs and time steps against a Taylor/quadrature oracle and '
        'composition of steps; the closed-form noise matrices against their integrals, for every '
        'dimension, block size, ordering, strength and time step; non-trivial: a system matrix that '
        'is not zero (general method) or block size above one or a time step other than 1.')


def expm_taylor(A):
    """matrix exponential by scaling and Taylor series (independent of scipy)"""
    k = max(0, int(math.ceil(math.log(max(np.abs(A).sum(), 1e-9), 2))) + 3)
    B = A / 2. ** k
    E, T = np.eye(len(A)), np.eye(len(A))
    for i in range(1, 22):
        T = T.dot(B) / i
        E = E + T
    for _ in range(k):
        E = E.dot(E)
    return E


NODES = np.polynomial.legendre.leggauss(16)


def noise(F, W, dt):
    """integral over [0, dt] of exp(Fs) W exp(F's) ds"""
    m = 4
    Q = np.zeros(F.shape)
    for p in range(m):
        a, b = p * dt / m, (p + 1) * dt / m
        for x, w in zip(*NODES):
            E = expm_taylor(F * (.5 * (b - a) * x + .5 * (a + b)))
            Q = Q + .5 * (b - a) * w * E.dot(W).dot(E.T)
    return Q


def gen(g):
    n, k = g.int(1, 4), g.int(1, 3)
    dt = g.choice([1., .1, .5, .01]) if g.bool() else g.float(.001, 1.5)
    return {'n': n, 'F': g.mat(n, n, 1.5), 'G': g.mat(n, k), 'Qc': g.psd(k, 1e-2, 10.), 'dt': dt,
            'dt2': g.float(.01, 1.), 'kind': g.choice(['random', 'shift', 'random', 'singular'])}


def check(c, ctx):
    n, F, G, dt = c['n'], c['F'], c['G'], c['dt']
    if c['kind'] == 'shift':
        F = np.diag(np.ones(n - 1), 1)
    elif c['kind'] == 'singular':
        F = F.copy()
        F[-1] = 0.
    phi, Q = van_loan_discretization(F.copy(), G.copy(), dt)
    E = expm_taylor(F * dt)
    W = G.dot(G.T)
    q = noise(F, W, dt)
    s = np.exp(min(20., np.abs(F).sum() * dt))
    close(phi, E, 'transition matrix', 1e-9, 1.)
    close(Q, q, 'noise matrix', 1e-9, np.abs(W).max() * dt * s ** .5)
    A, q1 = linear_ode_discretation(F.copy(), L=G.copy(), Q=c['Qc'].copy(), dt=dt)
    close(A, E, 'transition matrix (linear_ode_discretation)', 1e-9, 1.)
    W1 = G.dot(c['Qc']).dot(G.T)
    close(q1, noise(F, W1, dt), 'noise matrix (linear_ode_discretation)', 1e-8,
          np.abs(W1).max() * dt * s ** .5)
    A, q0 = linear_ode_discretation(F.copy(), dt=dt)
    close(A, E, 'transition matrix (linear_ode_discretation, no noise)', 1e-9, 1.)
    close(q0, np.zeros((n, n)), 'noise without noise', 1e-12, 1.)
    # composition of steps
    phi2, Q2 = van_loan_discretization(F, G, c['dt2'])
    phi3, Q3 = van_loan_discretization(F, G, dt + c['dt2'])
    close(phi3, phi2.dot(phi), 'composed transition', 1e-9, np.abs(phi2).max() * np.abs(phi).max())
    close(Q3, phi2.dot(Q).dot(phi2.T) + Q2, 'composed noise', 1e-8,
          np.abs(W).max() * (dt + 1.) * np.abs(phi2).max() ** 2 * s ** .5)
    ctx.label('n%d' % n, c['kind'])
    ctx.nt(np.abs(F).max() > 0)


def gen_q(g):
    dt = g.choice([1., .1, .5, 2., 1, 3, 10.]) if g.bool() else g.logfloat(*g.choice([(1e-3, 1e2), (1e-6, 1e4)]))
    return {'dim': g.int(2, 4), 'dt': dt, 's': g.choice([1., .1, 2., 5]) if g.bool() else
            g.logfloat(1e-4, 1e4), 'b': g.int(1, 4), 'by_dim': g.bool(),
            'call': g.choice(['pos', 'kw', 'default']), 'bad': g.choice([0, 1, 5, 6, -2]),
            'Q': g.mat(3, 3)}


def check_q(c, ctx):
    d, dt, s, b = c['dim'], c['dt'], c['s'], c['b']
    if c['call'] == 'default':
        dt, s, b = 1., 1., 1
        got = [Q_discrete_white_noise(d), Q_continuous_white_noise(d)]
        by = True
    elif c['call'] == 'pos':
        by = c['by_dim']
        got = [Q_discrete_white_noise(d, dt, s, b, by), Q_continuous_white_noise(d, dt, s, b, by)]
    else:
        by = c['by_dim']
        got = [Q_discrete_white_noise(dim=d, dt=dt, var=s, block_size=b, order_by_dim=by),
               Q_continuous_white_noise(dim=d, dt=dt, spectral_density=s, block_size=b,
                                        order_by_dim=by)]
    # piecewise constant noise: how a unit noise of the step enters each component
    top = 2 if d < 4 else 3
    g = np.array([float(dt) ** (top - i) / math.factorial(top - i) for i in range(d)])
    one = [np.outer(g, g) * s, np.zeros((d, d))]
    for i in range(d):
        for j in range(d):
            p, q = d - 1 - i, d - 1 - j
            one[1][i, j] = s * float(dt) ** (p + q + 1) / (
                math.factorial(p) * math.factorial(q) * (p + q + 1))
    for name, a, e in zip(['discrete', 'continuous'], got, one):
        E = np.kron(np.eye(b), e) if by else np.kron(e, np.eye(b))
        require(np.shape(a) == E.shape, '%s noise has shape %s, expected %s', name, np.shape(a), E.shape)
        # entries differ by many powers of dt: compare each relative to its own size
        r = np.where(E == 0, 1., E)
        close(np.asarray(a, dtype=float) / r, E / r, name + ' white noise (relative)', 1e-10)
        require(np.all((np.asarray(a) == 0) == (E == 0)), '%s white noise: zero pattern differs', name)
    if np.abs(np.log10(dt)) < 1.5:
        F = np.diag(np.ones(d - 1), 1)
        G = np.zeros((d, 1))
        G[-1] = np.sqrt(s)
        _, Q = van_loan_discretization(F, G, dt)
        close(Q_continuous_white_noise(d, dt, s), Q, 'closed form against the general method', 1e-7)
    for fn in (Q_discrete_white_noise, Q_continuous_white_noise):
        raises(lambda: fn(c['bad'], 1.), ValueError, 'dimension %d' % c['bad'])
    # the reordering function alone
    m = min(d, 3)
    Q = c['Q'][:m, :m]
    close(order_by_derivative(Q.copy(), m, b), np.kron(Q, np.eye(b)), 'order_by_derivative', 1e-14, 1.)
    close(order_by_derivative([list(r) for r in Q], m, b), np.kron(Q, np.eye(b)),
          'order_by_derivative of a list', 1e-14, 1.)
    ctx.label('dim%d' % d, 'block%d' % b, 'by dim' if by else 'by derivative')
    ctx.nt(b > 1 or dt != 1)


SUBS = [Sub('general', gen, check, 300), Sub('white noise', gen_q, check_q, 1500)]
