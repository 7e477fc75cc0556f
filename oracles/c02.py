"""Native oracle of C02: exact derivatives of the cardinal polynomials, node formulas."""
import math
import numpy as np
import casadi as cs
from .common import *
from casadi_extras.collocation.polynomial import PolynomialBasis, collocationPoints, cheb

BOUND = 'random and adversarial node sets with n <= 16; all schemes up to order 9; random polynomial coefficients'


def instances(rng, tier):
    for o in range(0, 10):
        for s in ('chebyshev', 'radau', 'legendre'):
            if o or s == 'chebyshev':
                yield dict(kind='points', order=o, scheme=s)
        yield dict(kind='cheb', order=o, t0=0.0, tf=1.0)
        yield dict(kind='cheb', order=o, t0=-1.5, tf=2.25)
    while True:
        c = rng.random()
        if c < .75:
            n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 12, 2, 3, 4, 16])
            st = rng.choice([None, None, None, 'int'])
            yield dict(kind='D', nodes=distinct(rng, n, st), as_int=st == 'int' and rng.random() < .7, aslist=rng.random() < .1,
                       p=[rng.randint(-5, 5) for _ in range(n)])
        elif c < .9:
            a = rng.uniform(-10, 10)
            b = a + rng.choice([-1, 1, 1, 1]) * 10 ** rng.uniform(-3, 3)
            yield dict(kind='cheb', order=rng.randint(0, 9), t0=a, tf=b)
        else:
            s = rng.choice(['chebyshev', 'radau', 'legendre'])
            yield dict(kind='points', order=rng.randint(1, 9), scheme=s)


def dref(tau):
    """exact differentiation matrix: derivatives of the cardinal polynomials at the nodes"""
    P = [pder(cardinal_poly(tau, k)) for k in range(len(tau))]
    return [[peval(P[k], t) for k in range(len(tau))] for t in tau]


def cmp_D(D, tau, scale=F(1), extra=0.0):
    n = len(tau)
    ft = [fr(x) for x in tau]
    r = shape_is(D, (n, n), 'differentiation matrix')
    if r:
        return r
    ref = dref(ft)
    for j in range(n):
        off = float(sum(abs(ref[j][k]) for k in range(n) if k != j))
        for k in range(n):
            e = ref[j][k] / scale
            if not np.isfinite(D[j, k]):
                return 'D[%d,%d] = %r' % (j, k, D[j, k])
            tol = (40 * n * EPS + extra) * (abs(float(ref[j][k])) if j != k else off + 1e-300) / abs(float(scale))
            if abs(float(fr(D[j, k]) - e)) > tol:
                return 'D[%d,%d] = %r, exact derivative %r (tolerance %g)' % (j, k, D[j, k], float(e), tol)
    return None


def check(i):
    if i['kind'] == 'D':
        tau = i['nodes']
        n = len(tau)
        b = PolynomialBasis(tau if i.get('aslist') else np.array(tau, dtype=int if i.get('as_int') else float))
        r = cmp_D(b.D, tau)
        if r:
            return r
        p = [F(int(x)) for x in i.get('p', [1] * n)]
        ft = [fr(x) for x in tau]
        exact = [peval(pder(p), t) for t in ft]
        vals = [peval(p, t) for t in ft]
        got = np.dot(b.D, np.array([float(v) for v in vals]))
        ref = dref(ft)
        for j in range(n):
            mag = float(sum(abs(ref[j][k]) * abs(vals[k]) for k in range(n))) + float(sum(abs(ref[j][k]) for k in range(n))) * abs(float(vals[j]))
            if abs(float(fr(got[j]) - exact[j])) > 60 * n * EPS * mag:
                return 'derivative at node %d is %r, exact %r' % (j, got[j], float(exact[j]))
        r = shape_is(b.tau, (n,), 'basis nodes')
        if r:
            return r
        if list(b.tau) != [float(x) for x in tau] or b.numPoints != n or b.order != n - 1:
            return 'basis reports nodes %r, numPoints %r, order %r' % (b.tau, b.numPoints, b.order)
        return None
    n = i['order']
    if i['kind'] == 'points':
        t = collocationPoints(n, i['scheme'])
        r = shape_is(t, (n + 1,), 'collocation points')
        if r:
            return r
        if i['scheme'] == 'chebyshev':
            ref = [(1 - math.cos(k * math.pi / n)) / 2 for k in range(n + 1)] if n else [0.0]
            tol = 4 * EPS
        else:
            ref = [0.0] + list(cs.collocation_points(n, i['scheme']))
            tol = 0
        for k in range(n + 1):
            if abs(t[k] - ref[k]) > tol:
                return '%s node %d of order %d is %r, expected %r' % (i['scheme'], k, n, t[k], ref[k])
        if any(a >= b for a, b in zip(t, t[1:])):
            return 'nodes do not ascend'
        return None
    t0, tf = i['t0'], i['tf']
    r = cheb(n, t0, tf)
    if not (isinstance(r, tuple) and len(r) == 2):
        return 'cheb does not return a pair'
    D, t = r
    ref = [(1 - math.cos(k * math.pi / n)) / 2 for k in range(n + 1)] if n else [0.0]
    m = shape_is(t, (n + 1,), 'Chebyshev grid')
    if m:
        return m
    for k in range(n + 1):
        if abs(t[k] - (t0 + ref[k] * (tf - t0))) > 8 * EPS * (abs(t0) + abs(tf)):
            return 'grid point %d is %r, expected %r' % (k, t[k], t0 + ref[k] * (tf - t0))
    return cmp_D(D, ref, fr(tf) - fr(t0), 1e-11)
