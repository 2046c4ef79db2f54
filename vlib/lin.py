"""Generators for linear Gaussian models, measurements and operation histories."""
import numpy as np


def z_forms(g, m, layout, override=False):
    """a form in which a caller may hand over a measurement of dimension m"""
    f = ['array', 'list', 'col']
    if m == 1:
        f += ['scalar', 'npscalar', 'int']
    if layout == 'col':
        f += ['row', 'tuple']
    return g.choice(f)


def make_z(vals, form):
    v = np.asarray(vals, dtype=float).ravel()
    if form == 'array':
        return v.copy()
    if form == 'list':
        return [float(t) for t in v]
    if form == 'tuple':
        return tuple(float(t) for t in v)
    if form == 'col':
        return v.reshape(-1, 1).copy()
    if form == 'row':
        return v.reshape(1, -1).copy()
    if form == 'scalar':
        return float(v[0])
    if form == 'int':
        return int(round(v[0]))
    if form == 'npscalar':
        return np.float64(v[0])
    raise ValueError(form)


def zval(vals, form):
    v = np.asarray(vals, dtype=float).ravel()
    if form == 'int':
        return np.array([float(int(round(v[0])))])
    return v


def model(g, max_x=4, max_z=3, max_u=2, min_x=1, layouts=('1d', 'col')):
    if max_x >= 3 and max_z >= 2 and g.prob(1):      # now and then a wider problem
        max_x, max_z = max_x + 3, max_z + 2
    n = g.int(min_x, max_x)
    m = g.int(1, max_z)
    c = {'n': n, 'm': m, 'layout': g.choice(layouts)}
    c['x0'] = g.vec(n)
    c['P0'] = g.spd(n)
    c['F'] = g.trans(n)
    c['Q'] = g.psd(n, 1e-3, 10.)
    c['H'] = g.mat(m, n)
    c['R'] = g.spd(m, 1e-2, 30.)
    c['u_dim'] = g.int(0, max_u)
    if c['u_dim']:
        c['B'] = g.mat(n, c['u_dim'])
    else:
        c['B'] = None
    return c


def shape_x(x, layout):
    x = np.asarray(x, dtype=float).ravel()
    return x.copy() if layout == '1d' else x.reshape(-1, 1).copy()


def shape_u(u, layout):
    if u is None:
        return None
    return shape_x(u, layout)


def ops(g, c, lo=1, hi=10, overrides=True, attrs=True, none_z=True, forms=True, alpha=False,
        alternate=False, u_always=False):
    """an operation history of predicts, updates and attribute changes"""
    n, m = c['n'], c['m']
    out = []
    for i in range(g.int(lo, hi)):
        if alternate:
            kind = 'predict' if i % 2 == 0 else 'update'
        else:
            kind = g.choice(['predict', 'update', 'predict', 'update', 'set'] if attrs
                            else ['predict', 'update'])
        if kind == 'predict':
            o = {'op': 'predict'}
            if c['B'] is not None and (u_always or g.prob(6)):
                o['u'] = g.vec(c['u_dim'], 4.)
                if overrides and g.prob(2):
                    o['B'] = g.mat(n, c['u_dim'])
            if overrides and g.prob(3):
                o['F'] = g.trans(n)
            if overrides and g.prob(3):
                o['Q'] = g.choice([0, 1])
                o['Q'] = g.psd(n, 1e-3, 10.) if o['Q'] == 0 else g.logfloat(1e-3, 10.)
        elif kind == 'update':
            o = {'op': 'update'}
            if none_z and g.prob(2):
                o['z'] = None
            else:
                mm = m
                if overrides and g.prob(2):
                    if g.prob(3):
                        mm = g.int(1, 3)
                    o['H'] = g.mat(mm, n)
                o['form'] = z_forms(g, mm, c['layout']) if forms else 'array'
                o['z'] = g.vec(mm, 20.)
                if mm != m or (overrides and g.prob(3)):
                    o['R'] = g.spd(mm, 1e-2, 30.) if g.bool() else g.logfloat(1e-2, 30.)
        else:
            a = g.choice(['F', 'Q', 'H', 'R', 'P', 'x'] + (['alpha'] if alpha else []))
            o = {'op': 'set', 'a': a}
            o['v'] = {'F': lambda: g.trans(n), 'Q': lambda: g.psd(n, 1e-3, 10.),
                      'H': lambda: g.mat(m, n), 'R': lambda: g.spd(m, 1e-2, 30.),
                      'P': lambda: g.spd(n), 'x': lambda: g.vec(n),
                      'alpha': lambda: g.float(1.0, 1.3)}[a]()
        out.append(o)
    return out


def full(v, n):
    """scalar covariance -> matrix"""
    return np.eye(n) * v if np.ndim(v) == 0 else np.asarray(v, dtype=float)
