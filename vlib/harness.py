"""Common machinery: generated-input search (Hypothesis), shrinking, replay, evidence.

A property's check is a module in /verif/checks that exposes

    PROPERTY = 'K01'
    RULE     = 'how cases are made and what makes one non-trivial'
    SUBS     = [Sub('name', gen, check, quick=N), ...]

`gen(g)` builds one *case* (a plain dict of ints, floats, strings, lists and numpy
arrays) from a `G`, which draws everything from Hypothesis; `check(case, ctx)`
runs the code under test on the case and raises `Violation` when the property does
not hold.  Because a case is plain data it is the replay file: `--replay FILE` runs
`check` on it without Hypothesis.
"""
import hashlib
import json
import os
import sys
import time
import traceback
from collections import Counter

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    pass


class _StopShrink(BaseException):
    pass


# ------------------------------------------------------------------ cases
def enc(o):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return {'__obj__': [enc(v) for v in o.ravel().tolist()], 'shape': list(o.shape)}
        return {'__nd__': o.ravel().tolist(), 'shape': list(o.shape), 'dtype': str(o.dtype)}
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    if isinstance(o, tuple):
        return {'__tuple__': [enc(v) for v in o]}
    if isinstance(o, list):
        return [enc(v) for v in o]
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    raise HarnessError('cannot encode %r' % (o,))


def dec(o):
    if isinstance(o, dict):
        if '__nd__' in o:
            return np.array(o['__nd__'], dtype=o['dtype']).reshape(o['shape'])
        if '__obj__' in o:
            a = np.empty(len(o['__obj__']), dtype=object)
            for i, v in enumerate(o['__obj__']):
                a[i] = dec(v)
            return a.reshape(o['shape'])
        if '__tuple__' in o:
            return tuple(dec(v) for v in o['__tuple__'])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(v) for v in o]
    return o


def copy_case(c):
    if isinstance(c, np.ndarray):
        return c.copy()
    if isinstance(c, dict):
        return {k: copy_case(v) for k, v in c.items()}
    if isinstance(c, list):
        return [copy_case(v) for v in c]
    if isinstance(c, tuple):
        return tuple(copy_case(v) for v in c)
    return c


def short(c, limit=1500):
    s = json.dumps(enc(c))
    return s if len(s) <= limit else s[:limit] + '...'


# ------------------------------------------------------------------ generators
class G(object):
    """Draws typed values from Hypothesis; every random choice goes through here."""

    def __init__(self, draw):
        from hypothesis import strategies as st
        self._d = draw
        self._st = st

    def int(self, a, b):
        return self._d(self._st.integers(a, b))

    def bool(self):
        return self._d(self._st.booleans())

    def choice(self, seq):
        return self._d(self._st.sampled_from(list(seq)))

    def prob(self, k, n=10):
        """true in about k of n draws; shrinks to False"""
        return self._d(self._st.integers(0, n - 1)) >= n - k

    def dim(self, lo, hi, wide):
        """a dimension in [lo, hi], now and then up to `wide`"""
        return self.int(lo, wide if self.prob(1) else hi)

    def bytes(self, n):
        return self._d(self._st.binary(min_size=n, max_size=n))

    def floats(self, n, hi=8.0):
        """n floats in [-hi, hi] (16 bit grid); shrinks towards 0"""
        if n == 0:
            return np.zeros(0)
        b = np.frombuffer(self.bytes(2 * n), dtype='>u2').astype(np.int64)
        v = np.where(b & 1, -((b + 1) >> 1), b >> 1)
        return v * (hi / 32768.0)

    def float(self, lo, hi):
        """a float in [lo, hi] (20 bit grid); shrinks towards lo"""
        k = self._d(self._st.integers(0, 1 << 20))
        return lo + (hi - lo) * (k / float(1 << 20))

    def logfloat(self, lo, hi):
        """log-uniform positive float"""
        return float(np.exp(self.float(np.log(lo), np.log(hi))))

    def anyfloat(self, lo, hi):
        return self._d(self._st.floats(lo, hi, allow_nan=False, allow_infinity=False))

    def ints(self, n, hi=4):
        if n == 0:
            return np.zeros(0)
        b = np.frombuffer(self.bytes(n), dtype=np.uint8).astype(np.int64) % (2 * hi + 1)
        return np.where(b & 1, -((b + 1) >> 1), b >> 1).astype(float)

    def vec(self, n, hi=8.0):
        if self.int(0, 3) == 0:
            return self.ints(n)
        return self.floats(n, hi)

    def mat(self, n, m, hi=2.0):
        if self.int(0, 3) == 0:
            return self.ints(n * m, 2).reshape(n, m)
        return self.floats(n * m, hi).reshape(n, m)

    def spd(self, n, lo=1e-2, hi=1e2, eps=0.2):
        """a well conditioned symmetric positive definite matrix, scale in [lo, hi]"""
        kind = self.int(0, 3)
        s = self.logfloat(lo, hi)
        if kind == 0:
            m = np.eye(n)
        elif kind == 1:
            m = np.diag(1.0 + np.abs(self.floats(n, 3.0)))
        else:
            a = self.floats(n * n, 1.5).reshape(n, n)
            m = a.dot(a.T) + eps * np.eye(n)
        m = m * s
        return 0.5 * (m + m.T)

    def psd(self, n, lo=1e-2, hi=1e2):
        """symmetric positive semi-definite, possibly singular or zero"""
        k = self.int(0, 4)
        if k == 0:
            return np.zeros((n, n))
        if k == 1:
            s = self.logfloat(lo, hi)
            v = self.floats(n, 2.0).reshape(n, 1)
            m = s * v.dot(v.T)
            return 0.5 * (m + m.T)
        return self.spd(n, lo, hi)

    def trans(self, n):
        """a state transition matrix of moderate norm (row sums at most ~2)"""
        k = self.int(0, 3)
        if k == 0:
            m = np.eye(n)
            dt = self.choice([1.0, 0.1, 0.5, 2.0])
            for i in range(n - 1):
                m[i, i + 1] = dt
            return m
        if k == 1:
            return np.eye(n)
        m = self.floats(n * n, 1.0).reshape(n, n)
        return m / max(1.0, np.abs(m).sum(axis=1).max() / 1.5)

    def perm(self, n):
        return list(self._d(self._st.permutations(list(range(n)))))


class Direct(G):
    """Draws uniformly from a pseudo-random source, or replays a recorded sequence of draws.

    Hypothesis repeats and simplifies what it draws, which finds small failures fast but visits few
    combinations of independent choices; these draws are independent of each other."""

    def __init__(self, rng=None, seq=None):
        self.rng, self.seq, self.drawn = rng, seq, []

    def below(self, size):
        """an integer in [0, size)"""
        i = len(self.drawn)
        if self.seq is None:
            v = self.rng.randrange(size)
        else:
            v = min(self.seq[i], size - 1) if i < len(self.seq) else 0
        self.drawn.append(v)
        return v

    def int(self, a, b):
        return a + self.below(b - a + 1)

    def bool(self):
        return bool(self.below(2))

    def choice(self, seq):
        seq = list(seq)
        return seq[self.below(len(seq))]

    def prob(self, k, n=10):
        return self.below(n) >= n - k

    def bytes(self, n):
        return bytes(bytearray(self.below(256) for _ in range(n)))

    def float(self, lo, hi):
        k = self.below((1 << 20) + 1)
        return lo + (hi - lo) * (k / float(1 << 20))

    def perm(self, n):
        p = list(range(n))
        for i in range(n - 1):
            j = i + self.below(n - i)
            p[i], p[j] = p[j], p[i]
        return p


def reduce_draws(seq, fails, seconds):
    """a shorter and smaller sequence of draws that still fails; `fails(seq)` gives the draws used, or None"""
    end = time.monotonic() + seconds
    best = list(seq)

    def attempt(cand):
        nonlocal best
        if time.monotonic() > end:
            return False
        used = fails(cand)
        if used is None or (len(used), used) >= (len(best), best):
            return False
        best = used
        return True

    improved = True
    while improved and time.monotonic() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size:
            i = 0
            while i < len(best) and time.monotonic() < end:
                cut = best[:i] + best[i + size:]
                zero = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                if attempt(cut) or (any(best[i:i + size]) and attempt(zero)):
                    improved = True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            while i < len(best) and best[i] and time.monotonic() < end:
                v = best[i]
                if attempt(best[:i] + [v // 2] + best[i + 1:]) or attempt(best[:i] + [v - 1] + best[i + 1:]):
                    improved = True
                else:
                    break
    return best


class Ctx(object):
    """Per-case observations: labels feed the distribution counts in the evidence."""

    def __init__(self):
        self.labels = Counter()
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub(object):
    def __init__(self, name, gen, check, quick=300, thorough=None, cases=None):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.cases = cases      # optional explicit extra cases (always run first)


# ------------------------------------------------------------------ comparisons
def arr(a, what='value'):
    """numeric array of `a`, or Violation when it is not one"""
    try:
        b = np.asarray(a, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation('%s is not numeric: %r (%s)' % (what, a, e))
    return b


def close(actual, expected, what, tol=1e-7, scale=0.0, shape=True, flat=False):
    """|actual-expected| <= tol*max(|expected|max, scale, 1e-300) element-wise"""
    e = np.asarray(expected, dtype=float)
    a = arr(actual, what)
    if flat:
        a, e = a.ravel(), e.ravel()
    if shape and a.shape != e.shape:
        raise Violation('%s: shape %s, expected %s (value %r, expected %r)' % (
            what, a.shape, e.shape, a.tolist(), e.tolist()))
    if a.size != e.size:
        raise Violation('%s: size %s, expected %s' % (what, a.shape, e.shape))
    if not shape:
        a = a.reshape(e.shape)
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)):
        raise Violation('%s is not finite: %r, expected %r' % (what, a.tolist(), e.tolist()))
    s = max(float(np.abs(e).max()), float(scale))
    d = float(np.abs(a - e).max())
    if not d <= tol * s + 1e-290:
        raise Violation('%s: got %r, expected %r (max difference %.3g, allowed %.3g)' % (
            what, a.tolist(), e.tolist(), d, tol * s))


def same(actual, expected, what):
    """bit-for-bit equality of two arrays/scalars/None"""
    if expected is None or actual is None:
        if not (expected is None and actual is None):
            raise Violation('%s: got %r, expected %r' % (what, actual, expected))
        return
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation('%s: shape %s, expected %s' % (what, a.shape, e.shape))
    if a.dtype == object or e.dtype == object:
        ok = all((x is None and y is None) or x == y for x, y in zip(a.ravel(), e.ravel()))
    else:
        ok = np.array_equal(a, e, equal_nan=True)
    if not ok:
        raise Violation('%s: got %r, expected exactly %r' % (what, a.tolist(), e.tolist()))


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def raises(fn, exc=Exception, what='call'):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, e))
    raise Violation('%s did not raise (returned %r)' % (what, r))


def psd_ok(P, what, tol=1e-9, scale=0.0):
    P = arr(P, what)
    require(P.ndim == 2 and P.shape[0] == P.shape[1], '%s is not square: %s', what, P.shape)
    require(np.all(np.isfinite(P)), '%s is not finite: %r', what, P.tolist())
    s = max(float(np.abs(P).max()), scale)
    if s == 0:
        return
    require(np.abs(P - P.T).max() <= tol * s, '%s is not symmetric: %r', what, P.tolist())
    w = np.linalg.eigvalsh(0.5 * (P + P.T)).min()
    require(w >= -tol * s, '%s is not positive semi-definite: eigenvalue %r of %r', what, w,
            P.tolist())


def in_repo(tb):
    root = os.path.join(os.path.realpath(REPO), 'filterpy') + os.sep
    for f, _ in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if os.path.realpath(fn).startswith(root):
            return True
    return False


# ------------------------------------------------------------------ running
def run_case(sub, case, ctx):
    """run the check on a copy of the case; exceptions out of the code under test on
    these (valid) inputs are violations, exceptions of our own are harness errors"""
    try:
        with np.errstate(all='ignore'):
            sub.check(copy_case(case), ctx)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        if in_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('%s: %s (at %s:%s)' % (
                type(e).__name__, e, last.filename, last.lineno))
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if isinstance(e, (ValueError, TypeError, IndexError, AttributeError, KeyError,
                          np.linalg.LinAlgError)):
            # cases are valid and checks accept every documented result, so the value the
            # code under test handed back cannot be used as what it is documented to be
            raise Violation('a result could not be used as documented: ' + text[-900:])
        raise HarnessError('harness failure: ' + text + '\ncase ' + short(case))


def direct(sub, one, seed, n, best, shrink_s):
    """n cases from independent uniform draws; a failure is reduced before it is passed on"""
    import random
    for i in range(n):
        g = Direct(random.Random(seed * 1000003 + i))
        case = sub.gen(g)
        try:
            one(case)
        except Violation:
            def fails(seq):
                h = Direct(seq=seq)
                try:
                    c = sub.gen(h)
                except Exception:
                    return None            # these draws make no case
                try:
                    run_case(sub, c, Ctx())
                except Violation as v:
                    size = len(json.dumps(enc(c)))
                    if size <= best['size']:
                        best.update(size=size, case=c, msg=str(v))
                    return h.drawn
                except HarnessError:
                    return None
                return None
            reduce_draws(g.drawn, fails, shrink_s)
            raise


def run_sub(prop, sub, seed, tier, shrink_s=40.0):
    import hypothesis
    from hypothesis import settings, given, strategies as st, Phase, HealthCheck

    n = sub.quick if tier == 'quick' else sub.thorough
    out = {'sub': sub.name, 'evaluations': 0, 'nontrivial': 0, 'labels': Counter(),
           'samples': [], 'violation': None, 'error': None, 'invalid': 0}
    seen = set()
    best = {}

    def one(case):
        ctx = Ctx()
        out['evaluations'] += 1
        try:
            run_case(sub, case, ctx)
        except Violation as v:
            j = json.dumps(enc(case))
            if 'size' not in best or len(j) < best['size']:
                best.update(size=len(j), case=case, msg=str(v))
            best.setdefault('t0', time.monotonic())
            raise
        out['labels'].update(ctx.labels)
        if ctx.nontrivial:
            h = hashlib.sha1(json.dumps(enc(case)).encode()).digest()
            if h not in seen:
                seen.add(h)
                out['nontrivial'] += 1
                k = out['nontrivial']
                if k in (1, 20, 150):
                    out['samples'].append({'sub': sub.name, 'case': short(case, 1200),
                                           'labels': sorted(ctx.labels)})

    try:
        for case in (sub.cases() if sub.cases else []):
            one(case)

        sd = int(hashlib.sha256(('%s/%s/%d' % (prop, sub.name, seed)).encode()).hexdigest()[:12], 16)
        direct(sub, one, sd, 3 * n, best, shrink_s)

        @st.composite
        def strat(draw):
            return sub.gen(G(draw))

        @hypothesis.seed(sd)
        @settings(max_examples=max(1, n // 2), database=None, deadline=None, report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink), print_blob=False,
                  suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                         HealthCheck.large_base_example])
        @given(strat())
        def test(case):
            if 't0' in best and time.monotonic() - best['t0'] > shrink_s:
                raise _StopShrink()
            one(case)

        if n > 0:
            test()
    except Violation:
        pass
    except _StopShrink:
        pass
    except hypothesis.errors.Flaky as e:
        if not best:
            out['error'] = 'flaky: %s' % e
    except HarnessError as e:
        out['error'] = str(e)
    except BaseException as e:
        if not best:
            out['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if best:
        out['violation'] = {'message': best['msg'], 'case': enc(best['case'])}
    out['labels'] = dict(out['labels'])
    return out
