"""Differential-quadrature grids shared by the oracles of C13 and C14."""
import math
import numpy as np
import casadi as cs
from .common import *
from casadi_extras.collocation.collocation import Pdq


def rand_grid(rng):
    N = rng.choice([1, 1, 2, 2, 3, 4, 6]) if rng.random() < .9 else rng.randint(7, 13)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 5, 7]) if rng.random() < .93 else rng.choice([6, 8, 9])
    c = rng.random()
    if c < .4:
        T = [x * .5 for x in sorted(rng.sample(range(-20, 21), N + 1))]
    elif c < .6:
        T = [float(k) for k in range(N + 1)]
    else:
        T = [rng.choice([0., 0., rng.uniform(-3, 3)])]
        for _ in range(N):
            T.append(T[-1] + 2.0 ** rng.randint(-5, 3) * rng.choice([1, rng.uniform(.7, 1)]))
    return dict(T=T, order=n, scheme=rng.choice(['chebyshev', 'radau', None]), tint=rng.random() < .4, tlist=rng.random() < .3, kw=rng.random() < .3)


def make(d):
    t = [int(x) for x in d['T']] if d.get('tint') and all(x == int(x) for x in d['T']) else d['T']
    t = list(t) if d.get('tlist') else np.array(t)
    if d.get('kw'):
        return Pdq(t, poly_order=d['order'], **({'polynomial_type': d['scheme']} if d['scheme'] else {}))
    if d['order'] == 5 and d['scheme'] is None:
        return Pdq(t)
    return Pdq(t, d['order'], *([d['scheme']] if d['scheme'] else []))


def local_nodes(d):
    n = d['order']
    if d['scheme'] == 'radau':
        s = [0.0] + list(cs.collocation_points(n, 'radau'))
    else:
        s = [(1 - math.cos(math.pi * k / n)) / 2 for k in range(n + 1)]
    s[0], s[-1] = 0.0, 1.0
    return s


def nodes(d, k):
    """exact nodes of interval k"""
    a, b = fr(d['T'][k]), fr(d['T'][k + 1])
    return [a + (b - a) * fr(s) for s in local_nodes(d)]


def blur(d):
    """relative uncertainty of a node position within its interval"""
    h = min(b - a for a, b in zip(d['T'], d['T'][1:]))
    return EPS * (4 + 4 * max(abs(x) for x in d['T']) / h)


def mat(rng, r, c):
    z = rng.random()
    if z < .2:
        return [[float(rng.choice([0, 0, 1, -2])) for _ in range(c)] for _ in range(r)]
    s = 10.0 ** rng.randint(-12, 9) if z < .4 else 1.0
    return [[s * rng.uniform(-4, 4) for _ in range(c)] for _ in range(r)]


def num(v):
    return np.array(v) if isinstance(v, np.ndarray) else np.array(cs.evalf(v)) if isinstance(v, cs.MX) else np.array(cs.evalf(cs.densify(v)) if isinstance(v, cs.SX) else cs.DM(v))


def conv(a, kind):
    a = np.array(a, dtype=float)
    if kind == 'np':
        return a
    return {'DM': cs.DM, 'MX': lambda x: cs.MX(cs.DM(x)), 'SX': lambda x: cs.SX(cs.DM(x))}[kind](a)


def compare(V, want, tol, what):
    V = num(V)
    r = shape_is(V, (len(want), len(want[0])), what)
    if r:
        return r
    for i, row in enumerate(want):
        for j, w in enumerate(row):
            if not abs(V[i][j] - float(w)) <= tol[i][j]:
                return '%s[%d, %d] is %r instead of %r (tolerance %.2g)' % (what, i, j, float(V[i][j]), float(w), tol[i][j])
    return None
