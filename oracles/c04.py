"""Native oracle of C04: exact integrals of the cardinal polynomials, rejection of malformed tableaus."""
import numpy as np
import casadi as cs
from .common import *
from .c03 import absprod
from casadi_extras.collocation.butcher import ButcherTableau, butcherTableuForCollocationPoints, butcherTableuForCollocationMethod

BOUND = 'random node sets with s <= 9, both casadi schemes up to order 9; tableau data with up to 3 dimensions of size <= 4'


def instances(rng, tier):
    for s in ('radau', 'legendre'):
        for o in range(1, 10):
            yield dict(kind='method', order=o, scheme=s)
    shapes = [(), (0,), (1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 1, 1), (2, 2, 2), (4, 4), (4,), (1, 4), (2, 2, 1)]
    for a in shapes:
        for b in shapes:
            for c in rng.sample(shapes, 4):
                yield dict(kind='shapes', A=list(a), b=list(b), c=list(c))
        if len(a) == 2:
            yield dict(kind='shapes', A=list(a), b=[a[0]], c=[a[0]])
            yield dict(kind='shapes', A=list(a), b=[a[1]], c=[a[0]])
            yield dict(kind='shapes', A=list(a), b=[a[0], 1], c=[a[0]])
            yield dict(kind='shapes', A=list(a), b=[a[0]], c=[1, a[0]])
    while True:
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 2, 3, 12])
        st = rng.choice([None, 'unit', 'desc', 'radau', 'int', 'int'])
        yield dict(kind='colloc', nodes=distinct(rng, n, st), aslist=rng.random() < .3, as_int=st == 'int' and rng.random() < .6, near=rng.choice([0, 1e-3, 1e-6, 1e-9]))


def cmp_tableau(t, tau):
    n = len(tau)
    ft = [fr(x) for x in tau]
    for nm, a, sh in (('A', t.A, (n, n)), ('b', t.b, (n,)), ('c', t.c, (n,))):
        r = shape_is(a, sh, nm)
        if r:
            return r
    if list(t.c) != [float(x) for x in tau]:
        return 'c = %r instead of the nodes' % (t.c,)
    for k in range(n):
        p = pint(cardinal_poly(ft, k))
        bd = pint(absprod(ft, k))
        for j in range(n):
            tol = 40 * (n + 1) * EPS * cond(bd, float(abs(ft[j])))
            if abs(float(fr(t.A[j, k]) - peval(p, ft[j]))) > tol:
                return 'A[%d,%d] = %r, exact integral %r' % (j, k, t.A[j, k], float(peval(p, ft[j])))
        if abs(float(fr(t.b[k]) - peval(p, F(1)))) > 40 * (n + 1) * EPS * cond(bd, 1.0):
            return 'b[%d] = %r, exact integral %r' % (k, t.b[k], float(peval(p, F(1))))
    return None


def check(i):
    if i['kind'] == 'colloc':
        def again(v):
            x = [int(a) for a in v] if i.get('as_int') else v
            x = x if i.get('aslist') else np.array(x)
            return cmp_tableau(butcherTableuForCollocationPoints(x), v)
        r = again(i['nodes'])
        if r or not i.get('near') or i.get('as_int'):
            return r
        # further tableaus, of nodes close to the first ones, do not depend on it
        v = list(i['nodes'])
        v[-1] += i['near'] * (max(v) - min(v) or 1)
        return again(v) or again(i['nodes'][::-1]) if len(set(v)) == len(v) else None
    if i['kind'] == 'method':
        return cmp_tableau(butcherTableuForCollocationMethod(i['order'], i['scheme']), cs.collocation_points(i['order'], i['scheme']))
    if i['kind'] == 'shapes':
        g = np.random.RandomState(3)
        A, b, c = g.randn(*i['A']), g.randn(*i['b']), g.randn(*i['c'])
    else:
        A, b, c = np.array(i['A']), np.array(i['b']), np.array(i['c'])
    A, b, c = np.asarray(A), np.asarray(b), np.asarray(c)
    ok = A.ndim == 2 and A.shape[0] == A.shape[1] and b.shape == (A.shape[0],) and c.shape == (A.shape[0],)
    A0, b0, c0 = A.copy(), b.copy(), c.copy()
    try:
        t = ButcherTableau(A, b, c)
    except Exception as e:
        return 'tableau with shapes %s %s %s rejected: %r' % (A.shape, b.shape, c.shape, e) if ok else None
    if not ok:
        return 'tableau with shapes %s %s %s accepted' % (A.shape, b.shape, c.shape)
    for nm, x, y in (('A', t.A, A0), ('b', t.b, b0), ('c', t.c, c0)):
        if np.shape(x) != y.shape or (np.asarray(x) != y).any():
            return '%s not exposed unchanged' % nm
    return None
