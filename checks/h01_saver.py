"""Saver: an independent record of every attribute and property at every save."""
import copy

import numpy as np
from filterpy.common import Saver
from vlib.harness import Sub, Violation, close, require, raises, same
from vlib import filters as fl

PROPERTY = 'H01'
RULE = ('Random histories of a synthetic object (array, list, nested, callable, private and late '
        'attributes, computed and inherited properties, in-place and by-replacement changes) and of '
        'every filter kind, with random save points and selections, against a shadow record; then '
        'array conversion and flattening against the same record. Non-trivial: at least two saves '
        'with a change between them.')


class Base(object):
    @property
    def area(self):
        return self.a.sum() * 2.

    @property
    def alias(self):
        return self.lst                  # hands out the live object


class Thing(Base):
    def __init__(self, c):
        self.a = c['a'].copy()
        self.colv = c['a'].reshape(-1, 1).copy()
        self.one = c['a'][:1].copy()
        self.s = c['s']
        self.lst = [[1.], [2., c['s']]] if c['ragged'] else [[1., 0.], [2., c['s']]]
        self.d = {'k': c['a'].copy()}
        self.none = None
        self._p = c['a'].copy() * 2
        self.fn = np.linalg.inv
        self._fn = lambda x: x
        self._both_, self.__dunder__ = c['s'], 'd'
        self.kind = float                # a class: callable as well
        self.name = 'thing'
        self.reads = 0

    @property
    def hot(self):
        """computed and cached on access"""
        self._cache = self.a * 3.
        return self._cache

    def method(self):
        return 1


PROPS = ['alias', 'area', 'hot']


def snap(o, props, private, callables, ignore):
    """what a save should record now"""
    out = {}
    for p in props:
        if p not in ignore:
            out[p] = copy.deepcopy(getattr(o, p))
    for k, v in copy.deepcopy(o.__dict__).items():
        if k in ignore or (private and k.startswith('_')) or (callables and callable(v)):
            continue
        out[k] = v
    return out


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.dtype == object or b.dtype == object:
            return a.shape == b.shape and all(equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or (a != a and b != b)
    if a is None or isinstance(a, (bool, int, str, np.integer, np.bool_)):
        return a == b
    if callable(a) and not hasattr(a, '__dict__'):
        return a is b
    if type(a) is not type(b):
        return False
    if hasattr(a, '__dict__') and not callable(a):
        return equal(a.__dict__, b.__dict__)
    return True        # functions and methods: same kind is all one can say of a copy


def gen(g):
    n = g.int(1, 4)
    c = {'a': g.vec(n), 's': g.float(0, 9), 'private': g.bool(), 'callable': g.bool(),
         'ignore': g.choice([[], [], ['a'], ['s', 'area'], ['hot', '_cache'], ['absent'], ['_p', 'fn', 'alias']]),
         'current': g.bool(), 'defaults': g.prob(2), 'ops': []}
    for _ in range(g.int(1, 12)):
        c['ops'].append({'op': g.choice(['save', 'save', 'save', 'inplace', 'replace', 'nested', 'dict', 'late',
                                         'reshape', 'none', 'touch']), 'v': g.float(-5, 5)})
    if g.prob(1) and g.prob(2):
        c['ops'] += [{'op': g.choice(['save', 'inplace']), 'v': 1.}, {'op': 'save', 'v': 0.}] * g.choice([40, 90, 150])
    c['flatten'] = g.bool()
    c['ragged'] = g.prob(4)
    return c


def check(c, ctx):
    o = Thing(c)
    ig = tuple(c['ignore'])
    private, call, cur = c['private'], c['callable'], c['current']
    if c['defaults']:
        private = call = cur = False
        ig = ()
        sv = Saver(o)
    else:
        sv = Saver(o, save_current=cur, skip_private=private, skip_callable=call, ignore=ig)
    shadow, saves = {}, 0

    def record():
        # a second object with the same contents: reading its properties does not touch `o`
        for k, v in snap(o, PROPS, private, call, ig).items():
            shadow.setdefault(k, []).append(v)

    def note():
        # properties that cache on access leave the cache behind: Saver evaluates them first
        for p in PROPS:
            if p not in ig:
                getattr(o, p)
        record()

    if cur and not c['defaults']:
        note()
        saves += 1
    changed = True
    moves = 0
    for q in c['ops']:
        v = q['v']
        if q['op'] == 'save':
            sv.save()
            note()
            saves += 1
            changed = False
        else:
            moves += saves > 0
            changed = True
            if q['op'] == 'inplace':
                o.a += v
                o.colv[0, 0] = v
                o._p[:] = v
            elif q['op'] == 'replace':
                o.a = o.a * v
                o.s = v
                o.one = np.array([v])
            elif q['op'] == 'nested':
                o.lst[1][0] = v
                if c['ragged']:
                    o.lst.append(v)
            elif q['op'] == 'dict':
                o.d['k'][0] = v
                o.d['m%d' % len(o.d)] = v
            elif q['op'] == 'late':
                o.extra = np.array([v, v])
                o._late = v
            elif q['op'] == 'reshape':
                o.one = np.append(o.one, v) if c['ragged'] else o.one * v
            elif q['op'] == 'none':
                if c['ragged']:
                    o.none = v if o.none is None else None
            else:
                o.hot
        compare(sv, shadow, saves, ig, 'after ' + q['op'])
    arrays(sv, shadow, saves, c['flatten'], ctx)
    text = repr(sv)
    require(all(k in text.split('Keys:')[1] for k in shadow), 'printed form %r lacks a key', text)
    mine = [c['s'], 'b']
    sv['mine'] = mine
    require(sv['mine'] == mine and sv.mine == mine and 'mine' in sv.keys and len(sv) == saves,
            'an entry set by hand reads %r, %r', sv['mine'], sv.mine)
    ctx.label('saves %d' % min(saves, 4), 'skip private' if private else 'keep private')
    ctx.nt(saves >= 2 and moves > 0)


def compare(sv, shadow, saves, ig, when):
    require(len(sv) == saves, 'len(saver) is %r after %d saves', len(sv), saves)
    require(sorted(sv.keys) == sorted(shadow), 'keys %s: %r, expected %r', when, sorted(sv.keys), sorted(shadow))
    for k, e in shadow.items():
        got = sv[k]
        require(isinstance(got, list) and len(got) == len(e), '%s %s: %d saved values, expected %d', k, when,
                len(got), len(e))
        for i, (a, b) in enumerate(zip(got, e)):
            require(equal(a, b), '%s, save %d, %s: holds %r, but the value at that moment was %r', k, i, when, a, b)
        att = getattr(sv, k)
        require(att is got or equal(list(att), list(got)), 'saver.%s differs from saver[%r]', k, k)


def convertible(vs):
    try:
        return np.array(copy.deepcopy(vs))
    except Exception:
        return None


def arrays(sv, shadow, saves, flatten, ctx):
    want = {k: convertible(v) for k, v in shadow.items()}
    if any(w is None for w in want.values()):
        raises(sv.to_array, ValueError, 'to_array of values that differ in shape')
        for k, e in shadow.items():
            require(equal(list(getattr(sv, k)), e), 'after the failed conversion %s is %r, not %r', k,
                    getattr(sv, k), e)
        ctx.label('not convertible')
        return
    if flatten:
        sv.to_array(flatten=True)
    else:
        sv.to_array()
    for k, w in want.items():
        a = getattr(sv, k)
        require(isinstance(a, np.ndarray), '%s is not an array after to_array: %r', k, a)
        if flatten and w.ndim == 3 and w.shape[2] == 1:
            w = w.reshape(w.shape[0]) if w.shape[1] == 1 else w.reshape(w.shape[:2])
        elif flatten:
            require(equal(a.ravel(), w.ravel()) and len(a) == saves_of(shadow[k]), '%s changed by flattening: '
                    '%r, expected the values of %r', k, a, w)
            continue
        require(equal(a, w), '%s after to_array(flatten=%r): %r of shape %s, expected %r of shape %s', k, flatten,
                a, a.shape, w, w.shape)
    ctx.label('flattened' if flatten else 'arrays')


def saves_of(v):
    return len(v)


# ------------------------------------------------------------- real filters
FKINDS = list(fl.ALL)


def gen_filter(g):
    k = g.choice(FKINDS)
    c = fl.model(g, 3, 2)
    c['kind'] = k
    c['hist'] = fl.history(g, c, 1, 5)
    c['saves'] = [g.int(0, 3) for _ in range(12)]
    c['private'], c['callable'] = g.bool(), g.bool()
    c['flatten'], c['twice'] = g.bool(), g.bool()
    return c


def check_filter(c, ctx):
    f = fl.A(c['kind'], c)
    o = f.f
    props = [p for p in dir(type(o)) if isinstance(getattr(type(o), p, None), property)]
    sv = Saver(o, skip_private=c['private'], skip_callable=c['callable'])
    shadow, n, j = {}, 0, 0

    def save():
        before = snap(o, props, False, False, ())
        sv.save()
        now = snap(o, props, False, False, ())
        for k, v in before.items():
            require(equal(v, now[k]), 'saving changed %s of the filter from %r to %r', k, v, now[k])
        for k, v in snap(o, props, c['private'], c['callable'], ()).items():
            shadow.setdefault(k, []).append(v)

    for h in c['hist']:
        for phase in ('predict', 'update'):
            if phase == 'predict':
                f.predict(h[0])
            else:
                f.update(h[1])
            if c['saves'][j % len(c['saves'])]:
                save()
                n += 1
            j += 1
    if n == 0:
        save()
        n = 1
    compare(sv, shadow, n, (), 'of ' + c['kind'])
    for k in ('x', 'P'):
        require(k in sv.keys, '%s is not saved', k)
    if c['twice']:
        # conversion to arrays in between does not disturb later saves
        try:
            sv.to_array(flatten=c['flatten'])
        except ValueError:
            pass
        save()
        n += 1
        compare(sv, shadow, n, (), 'of %s saved again after to_array' % c['kind'])
    # later changes of the filter do not reach what was saved
    o.x = np.asarray(o.x) * 0. + 77.
    for k, v in list(o.__dict__.items()):
        if isinstance(v, np.ndarray) and v.size and v.dtype == float and v.flags.writeable:
            v[...] = 55.
    compare(sv, shadow, n, (), 'of %s after the filter changed' % c['kind'])
    ctx.label(c['kind'])
    ctx.nt(n >= 2)


# ------------------------------------------------------------- every other estimator
OTHERS = ['kf', 'ckf', 'ukf', 'enkf', 'hinf', 'fls', 'imm', 'mmae', 'gh', 'ghk', 'order', 'fm', 'ls']


def build(kind, c):
    """(object, list of step functions)"""
    from filterpy import kalman as K
    from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
    from filterpy.memory import FadingMemoryFilter
    from filterpy.leastsq import LeastSquaresFilter
    from filterpy.hinfinity import HInfinityFilter
    F = np.array([[1., c['dt']], [0., 1.]])

    def hx(x):
        return x[:1]

    def fx(x, dt):
        return F.dot(x)

    def kf(s=1.):
        f = K.KalmanFilter(2, 1)
        f.F, f.H, f.R = F, np.array([[1., 0.]]), np.array([[s]])
        return f
    if kind in ('gh', 'ghk', 'order', 'fm', 'ls'):
        o = {'gh': lambda: GHFilter(0., 0., c['dt'], .5, .2), 'ghk': lambda: GHKFilter(0., 0., 0., c['dt'], .5, .2, .1),
             'order': lambda: GHFilterOrder(np.zeros(2), c['dt'], 1, .5, .2),
             'fm': lambda: FadingMemoryFilter(np.zeros(2), c['dt'], 1, .6),
             'ls': lambda: LeastSquaresFilter(c['dt'], 1)}[kind]()
        return o, [o.update]
    if kind == 'hinf':
        o = HInfinityFilter(2, 1, 0, .01)
        o.F, o.H = F, np.array([[1., 0.]])
        o.V = np.eye(1)
        o.W = np.eye(2) * .01
        return o, [lambda z: o.predict(), lambda z: o.update(np.array([[z]]))]
    if kind == 'fls':
        o = K.FixedLagSmoother(2, 1, N=3)
        o.F, o.H, o.Q, o.P, o.R = F, np.array([[1., 0.]]), np.eye(2) * .1, np.eye(2), np.eye(1)
        return o, [lambda z: o.smooth(z)]
    if kind == 'imm':
        o = K.IMMEstimator([kf(), kf(4.)], [.5, .5], np.array([[.9, .1], [.2, .8]]))
    elif kind == 'mmae':
        o = K.MMAEFilterBank([kf(), kf(4.)], [.5, .5], 2)
    elif kind == 'ckf':
        o = K.CubatureKalmanFilter(2, 1, c['dt'], hx, fx)
    elif kind == 'ukf':
        o = K.UnscentedKalmanFilter(2, 1, c['dt'], hx, fx, K.MerweScaledSigmaPoints(2, .5, 2., 1.))
    elif kind == 'enkf':
        o = K.EnsembleKalmanFilter(np.zeros(2), np.eye(2), 1, c['dt'], 5, hx, fx)
    else:
        o = kf()
    return o, [lambda z: o.predict(), lambda z: o.update(np.array([z]))]


def gen_other(g):
    return {'kind': g.choice(OTHERS), 'dt': g.choice([1., .5]), 'z': list(g.floats(g.int(1, 6), 5.)),
            'flatten': g.bool(), 'save': [g.bool() for _ in range(12)], 'current': g.bool(), 'private': g.bool(), 'callable': g.bool(),
            'ignore': g.choice([[], ['x'], ['P', 'likelihood'], ['z', 'filters']]), 'seed': g.int(0, 10 ** 6)}


def check_other(c, ctx):
    np.random.seed(c['seed'])
    o, steps = build(c['kind'], c)
    props = [p for p in dir(type(o)) if isinstance(getattr(type(o), p, None), property)]
    ig = tuple(c['ignore'])
    shadow = {}

    def note():
        for k, v in snap(o, props, c['private'], c['callable'], ig).items():
            shadow.setdefault(k, []).append(v)
    n = int(c['current'])
    sv = Saver(o, c['current'], c['private'], c['callable'], ig)
    if n:
        note()
    j = 0
    for z in c['z']:
        for f in steps:
            f(float(z))
            if c['save'][j % len(c['save'])]:
                sv.save()
                note()
                n += 1
            j += 1
    compare(sv, shadow, n, ig, 'of ' + c['kind'])
    if n:
        arrays(sv, shadow, n, c['flatten'], ctx)
    if 'x' not in ig and n:
        close(np.asarray(sv['x'][-1], dtype=float), np.asarray(shadow['x'][-1], dtype=float), 'last saved x', 0.)
    ctx.label(c['kind'])
    ctx.nt(n >= 2)


SUBS = [Sub('object', gen, check, quick=800),
        Sub('filters', gen_filter, check_filter, quick=250),
        Sub('others', gen_other, check_other, quick=300)]
