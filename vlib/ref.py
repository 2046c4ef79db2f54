"""Reference models, written from the textbook definitions and independent of filterpy."""
import math
import numpy as np


def sym(P):
    return 0.5 * (P + P.T)


def col(x):
    return np.asarray(x, dtype=float).reshape(-1, 1)


class Dense(object):
    """Exact joint Gaussian over every state of a trajectory; conditions by one dense
    solve (no recursion).  states: x_0, x_1, ... each a linear image of the previous one
    plus independent noise; measurements are linear in one state plus independent noise
    (optionally correlated with that state's newest process noise)."""

    def __init__(self, x, P):
        self.n = len(col(x))
        self.mean = col(x)
        self.cov = np.array(P, dtype=float)
        self.k = 0
        self.H = []      # list of (row block over all states, offset, R, z)

    def predict(self, F, Q, Bu=None):
        n, m = self.n, len(self.mean)
        A = np.zeros((n, m))
        A[:, m - n:] = F
        mean = A.dot(self.mean)
        if Bu is not None:
            mean = mean + col(Bu)
        c = A.dot(self.cov)
        self.cov = np.block([[self.cov, c.T], [c, c.dot(A.T) + Q]])
        self.mean = np.vstack([self.mean, mean])
        self.k += 1

    def update(self, z, H, R):
        self.H.append((self.k, np.array(H, dtype=float), np.array(R, dtype=float), col(z)))

    def posterior(self, k=None, upto=None):
        """mean and covariance of state k given measurements (all, or the first `upto`)"""
        n = self.n
        if k is None:
            k = self.k
        hs = self.H if upto is None else self.H[:upto]
        sl = slice(k * n, k * n + n)
        if not hs:
            return self.mean[sl].copy(), self.cov[sl, sl].copy()
        N = len(self.mean)
        m = sum(len(h[1]) for h in hs)
        C = np.zeros((m, N))
        R = np.zeros((m, m))
        z = np.zeros((m, 1))
        r = 0
        for (kk, H, Rr, zz) in hs:
            q = len(H)
            C[r:r + q, kk * n:kk * n + n] = H
            R[r:r + q, r:r + q] = Rr
            z[r:r + q] = zz
            r += q
        S = C.dot(self.cov).dot(C.T) + R
        PHt = self.cov[sl, :].dot(C.T)
        G = np.linalg.solve(S, PHt.T).T
        x = self.mean[sl] + G.dot(z - C.dot(self.mean))
        P = self.cov[sl, sl] - G.dot(PHt.T)
        return x, sym(P)


def kf_predict(x, P, F, Q, Bu=None, alpha=1.0):
    x = np.dot(F, x)
    if Bu is not None:
        x = x + col(Bu)
    return x, alpha ** 2 * F.dot(P).dot(F.T) + Q


def kf_gain(P, H, R):
    S = H.dot(P).dot(H.T) + R
    K = np.linalg.solve(S.T, H.dot(P.T)).T
    return K, S


def kf_update(x, P, z, H, R):
    K, S = kf_gain(P, H, R)
    y = col(z) - H.dot(x)
    return x + K.dot(y), sym(P - K.dot(S).dot(K.T)), y, S, K


def gauss_logpdf(y, S):
    """log N(y; 0, S)"""
    y = col(y)
    S = np.atleast_2d(np.asarray(S, dtype=float))
    sign, ld = np.linalg.slogdet(S)
    return -0.5 * (len(y) * math.log(2 * math.pi) + ld +
                   float(y.T.dot(np.linalg.solve(S, y))[0, 0]))


def maha(y, S):
    y = col(y)
    return math.sqrt(max(0.0, float(y.T.dot(np.linalg.solve(np.atleast_2d(S), y))[0, 0])))


def rts(xs, Ps, Fs, Qs):
    """fixed interval smoother; Fs[k], Qs[k] lead from k to k+1"""
    n = len(xs)
    x = [col(v) for v in xs]
    P = [np.array(p, dtype=float) for p in Ps]
    for k in range(n - 2, -1, -1):
        Pp = Fs[k].dot(P[k]).dot(Fs[k].T) + Qs[k]
        G = np.linalg.solve(Pp.T, Fs[k].dot(P[k].T)).T
        x[k] = x[k] + G.dot(x[k + 1] - Fs[k].dot(x[k]))
        P[k] = P[k] + G.dot(P[k + 1] - Pp).dot(G.T)
    return x, P
