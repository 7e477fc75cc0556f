"""Native oracle of C06: exact derivative and extracted polynomials."""
from .pieces import *

BOUND = 'random piecewise polynomials, N <= 13 intervals of different length, n <= 5 nodes'


def instances(rng, tier):
    yield dict(nodes=[0.0, 1.0], T=[0.0, 1.0, 3.0], C=[[[0, 0]], [[0, 0]]], ints=True, t=[0.5, 2.0], k=1)
    yield dict(nodes=[0.0], T=[0.0, 4.0], C=[[[2], [3]]], ints=True, t=[0.5, 2.0], k=0)
    while True:
        d = rand_pp(rng)
        T = d['T']
        yield dict(d, t=[rng.uniform(T[0], T[-1]) for _ in range(2)] + [rng.choice(T)], k=rng.randrange(len(T) - 1))


def check(i):
    basis = PolynomialBasis(np.array(i['nodes']))
    T = i['T']
    x = i['t']
    # another function with the same basis
    other = dict(i, C=[[[2 * v + k + 1 for v in row] for row in c] for k, c in enumerate(i['C'])])
    g = make(other, basis)
    e = one(make(i, basis), i) or cmp_values(g.derivative()(np.array(x)), other, [piece_of(T, t, 'right') for t in x], x, 'derivative of another function', 1, 20)
    return e


def one(f, i):
    T = i['T']
    x = i['t']
    before = f(np.array(x))
    d = f.derivative()
    if list(d.intervals) != list(T) or d.numIntervals != len(T) - 1:
        return 'derivative has intervals %r instead of %r' % (d.intervals, T)
    for side in ('right', 'left'):
        r = cmp_values(d(np.array(x), side), i, [piece_of(T, t, side) for t in x], x, 'derivative', 1, 20)
        if r:
            return r
    if list(f.intervals) != list(T) or (f(np.array(x)) != before).any():
        return 'taking the derivative changed the original'
    for k in [i['k']] if i.get('kind') == 'poly' else range(len(T) - 1):
        p = f.poly(k)
        q = len(i['C'][0])
        if len(p) != q:
            return '%d polynomials extracted for %d components' % (len(p), q)
        h = T[k + 1] - T[k]
        tau = [fr(b) for b in i['nodes']]
        P = [cardinal_poly(tau, j) for j in range(len(tau))]
        from .c03 import absprod
        A = [absprod(tau, j) for j in range(len(tau))]
        for s in (0.0, h, h / 3, -h / 2, 1.5 * h):
            for a in range(q):
                row = i['C'][k][a]
                ref = sum(fr(row[j]) * peval(P[j], fr(s) / (fr(T[k + 1]) - fr(T[k]))) for j in range(len(tau)))
                mag = sum(abs(float(row[j])) * cond(A[j], abs(s / h)) for j in range(len(tau)))
                got = p[a](s)
                if not np.isfinite(got) or abs(float(fr(got) - ref)) > 300 * len(tau) * (EPS * mag + EPS * abs(T[k]) / h * mag) + 1e-300:
                    return 'poly(%d)[%d](%r) = %r, exact value %r' % (k, a, s, got, float(ref))
        d2 = f.poly(k)
        for e in d2:
            e.coeffs[...] = 3.0
    if (f(np.array(x)) != before).any():
        return 'extracting polynomials changed the original'
    return None
