"""Native oracle of C03: exact cardinal polynomials and their linear combinations."""
import copy
import numpy as np
from .common import *
from casadi_extras.collocation.polynomial import PolynomialBasis

BOUND = 'random and adversarial node sets with n <= 9 (some with 14), coefficient matrices with up to 3 rows (integers, numbers next to integers, tiny and huge ones)'


def instances(rng, tier):
    for n in (1, 2, 3):
        for c in ([[0] * n], [[1] * n, [0] * n], [list(range(n))] * 2):
            yield dict(nodes=[float(k) for k in range(n)], c=c, as_int=True)
    while True:
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 2, 3, 4, 14])
        m = rng.choice([1, 1, 2, 3])
        k = rng.random()
        c = [[rng.choice([0, 1, -2, rng.randint(-9, 9)]) if k < .4 else rng.uniform(-5, 5) for _ in range(n)] for _ in range(m)]
        if k > .7:
            s = rng.choice([0, 0, 1e-9, 1e-12, 1e7, 1e15])
            c = [[rng.randint(-9, 9) + rng.choice([0, 1e-7, -1e-9, 1e-12]) if s == 0 else v * s for v in row] for row in c]
        yield dict(nodes=distinct(rng, n, rng.choice([None, 'int'])), c=c, as_int=k < .2)


def coefs(p):
    return [fr(x) for x in reversed(np.atleast_1d(p.coeffs).tolist())]


def cmp_poly(p, ref, bound, what):
    """coefficients of a poly1d against exact ones; bound: per-coefficient error bound"""
    if not isinstance(p, np.poly1d):
        return '%s is not a polynomial' % what
    got = coefs(p)
    for k in range(max(len(got), len(ref))):
        g = got[k] if k < len(got) else F(0)
        r = ref[k] if k < len(ref) else F(0)
        b = bound[k] if k < len(bound) else 0.0
        if abs(float(g - r)) > b:
            return '%s: coefficient of x^%d is %r, exact %r' % (what, k, float(g), float(r))
    return None


def absprod(tau, k):
    """coefficientwise bound: product of |x| + |tau_r|, scaled"""
    p = [F(1)]
    for r, t in enumerate(tau):
        if r != k:
            d = abs(tau[k] - t)
            p = pmul(p, [abs(t) / d, F(1) / d])
    return p


def cmp_basis(b, ft):
    n = len(ft)
    if len(b.poly) != n:
        return '%d polynomials instead of %d' % (len(b.poly), n)
    for k in range(n):
        if b.poly[k].order != n - 1:
            return 'polynomial %d has degree %d instead of %d' % (k, b.poly[k].order, n - 1)
        r = cmp_poly(b.poly[k], cardinal_poly(ft, k), [20 * n * EPS * float(a) for a in absprod(ft, k)], 'basis polynomial %d' % k)
        if r:
            return r
    return None


def check(i):
    tau = i['nodes']
    ft = [fr(x) for x in tau]
    n = len(tau)
    b = PolynomialBasis(np.array(tau, dtype=int if i.get('as_int') and all(x == int(x) for x in tau) else float))
    r = cmp_basis(b, ft)
    if r:
        return r
    c = np.array(i['c'])
    c0 = c.copy()
    before = [p.coeffs.copy() for p in b.poly]
    D, t, w = b.D.copy(), b.tau.copy(), b.interpolationMatrix(tau).copy()
    q = b.compose(c)
    if len(q) != len(i['c']):
        return 'compose returns %d polynomials for %d rows' % (len(q), len(i['c']))
    P = [cardinal_poly(ft, k) for k in range(n)]
    A = [absprod(ft, k) for k in range(n)]
    for a in range(len(q)):
        ref = [sum(fr(i['c'][a][k]) * P[k][e] for k in range(n)) for e in range(n)]
        bnd = [60 * n * EPS * float(sum(abs(fr(i['c'][a][k])) * A[k][e] for k in range(n))) + 1e-300 for e in range(n)]
        r = cmp_poly(q[a], ref, bnd, 'composed polynomial %d' % a)
        if r:
            return r
    if any(x.shape != p.coeffs.shape or (x != p.coeffs).any() for x, p in zip(before, b.poly)) or (D != b.D).any() or (t != b.tau).any() or (b.interpolationMatrix(tau) != w).any():
        return 'compose changed the basis'
    if (c != c0).any():
        return 'compose changed the coefficients'
    for p in q:
        p *= 0
        p.coeffs[...] = 7
    r = cmp_basis(b, ft)
    if r:
        return 'a composed polynomial shares data with the basis: ' + r
    return None
