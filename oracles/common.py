"""Helpers of the native oracles: exact references (Fractions) and conditioning-aware tolerances."""
from fractions import Fraction as F
import math
import numpy as np

EPS = np.finfo(float).eps


def fr(x):
    return F(float(x)) if not isinstance(x, F) else x


def cardinal(tau, k, x):
    """exact k-th Lagrange cardinal polynomial of nodes tau (Fractions) at x"""
    p = F(1)
    for r, tr in enumerate(tau):
        if r != k:
            p *= (x - tr) / (tau[k] - tr)
    return p


def pmul(p, q):
    """polynomials as ascending coefficient lists"""
    r = [F(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def cardinal_poly(tau, k):
    p = [F(1)]
    for r, tr in enumerate(tau):
        if r != k:
            d = tau[k] - tr
            p = pmul(p, [-tr / d, F(1) / d])
    return p


def peval(p, x):
    v = F(0)
    for a in reversed(p):
        v = v * x + a
    return v


def pder(p):
    return [a * i for i, a in enumerate(p)][1:] or [F(0)]


def pint(p):
    return [F(0)] + [a / (i + 1) for i, a in enumerate(p)]


def cond(p, x):
    """sum of |coefficients| |x|^i: conditioning of Horner evaluation"""
    return float(sum(abs(a) * abs(x) ** i for i, a in enumerate(p)))


def distinct(rng, n, style=None):
    """n distinct node positions of various kinds"""
    style = style or rng.choice(['unit', 'sym', 'neg', 'scaled', 'offset', 'int', 'cluster', 'desc', 'radau'])
    while True:
        if style == 'unit':
            v = [rng.random() for _ in range(n)]
        elif style == 'sym':
            v = [rng.uniform(-1, 1) for _ in range(n)]
        elif style == 'neg':
            v = [-rng.uniform(0, 3) for _ in range(n)]
        elif style == 'scaled':
            s = 10.0 ** rng.randint(-4, 4)
            v = [s * rng.uniform(-1, 1) for _ in range(n)]
        elif style == 'offset':
            o = rng.choice([-100., 10., 1000.])
            v = [o + rng.uniform(-1, 1) for _ in range(n)]
        elif style == 'int':
            v = [float(x) for x in rng.sample(range(-2 * n - 2, 2 * n + 3), n)]
        elif style == 'cluster':
            v = [rng.random() for _ in range(n)]
            if n > 1:
                v[1] = v[0] + 1e-3
        elif style == 'desc':
            v = sorted((rng.random() for _ in range(n)), reverse=True)
        else:
            v = [0.0] + sorted(rng.uniform(0.02, 1) for _ in range(n - 1))
        if len(set(v)) == n:
            s = sorted(v)
            span = max(s[-1] - s[0], 1e-300)
            if all(b - a > 1e-7 * span for a, b in zip(s, s[1:])):
                return v


def queries(rng, tau, m):
    """query points: nodes, near nodes, inside, outside"""
    lo, hi = min(tau), max(tau)
    span = (hi - lo) or 1.0
    out = []
    for _ in range(m):
        c = rng.random()
        if c < .3:
            out.append(rng.choice(tau))
        elif c < .55:
            out.append(rng.choice(tau) + rng.choice([-1, 1]) * span * 10.0 ** -rng.randint(3, 13))
        elif c < .6:
            z = rng.choice(tau)
            out.append(math.nextafter(z, rng.choice([-9e9, 9e9])) if z else 1e-200)
        elif c < .85:
            out.append(rng.uniform(lo, hi))
        else:
            out.append(rng.choice([lo - span * rng.random(), hi + span * rng.random()]))
    return out


def shape_is(a, sh, what):
    s = tuple(np.shape(a))
    return None if s == tuple(sh) else '%s has shape %s instead of %s' % (what, s, tuple(sh))


def raises(f, *types):
    """does f raise one of the exception types?"""
    try:
        f()
    except types or (Exception,):
        return True
    except Exception:
        return False
    return False
