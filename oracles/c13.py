"""Native oracle of C13: grid, slopes and integrals of continuous piecewise polynomials."""
import functools
from .pdq import *

BOUND = 'random grids, N <= 13 intervals, order <= 9, up to 3 components, data = node values of a continuous piecewise polynomial'


def instances(rng, tier):
    while True:
        d = rand_grid(rng)
        L = (len(d['T']) - 1) * d['order'] + 1
        k = rng.choice(['grid', 'derivative', 'derivative', 'integral', 'integral'])
        yield dict(d, kind=k, y=None if k == 'grid' else mat(rng, rng.choice([1, 1, 2, 3]), L), type=rng.choice(['MX', 'DM', 'SX', 'np']))


@functools.lru_cache(None)
def local_matrix(s):
    s = [fr(x) for x in s]
    P = [pder(cardinal_poly(s, l)) for l in range(len(s))]
    return [[peval(p, x) for p in P] for x in s[:-1]]


def slopes(d, y):
    """exact slopes at all grid points but the last, and their uncertainty"""
    n, N = d['order'], len(d['T']) - 1
    out, tol = [[] for _ in y], [[] for _ in y]
    for k in range(N):
        tau = nodes(d, k)
        h = float(tau[-1] - tau[0])
        D = local_matrix(tuple(local_nodes(d)))
        for i, row in enumerate(y):
            c = [fr(v) for v in row[k * n:k * n + n + 1]]
            m = float(max(abs(v) for v in c))
            for j in range(n):
                out[i].append(sum(D[j][l] * c[l] for l in range(n + 1)) / (tau[-1] - tau[0]))
                tol[i].append(1e-11 * m / h + 64 * blur(d) * (n + 1) ** 4 * m / h)
    return out, tol


def check(d):
    p = make(d)
    n, N = d['order'], len(d['T']) - 1
    if d['kind'] == 'grid':
        want = []
        for k in range(N):
            want += nodes(d, k)[:-1]
        want.append(fr(d['T'][-1]))
        g = np.asarray(p.collocationPoints, dtype=float)
        r = shape_is(g, (N * n + 1,), 'grid')
        if r:
            return r
        s = max(abs(x) for x in d['T'])
        for k, (a, b) in enumerate(zip(g, want)):
            if not abs(a - float(b)) <= 8 * EPS * s + 4 * EPS:
                return 'grid point %d is %r instead of %r' % (k, float(a), float(b))
        if any(b <= a for a, b in zip(g, g[1:])):
            return 'grid does not ascend: %s' % list(g)
        if list(p.intervalBounds) != list(d['T']) or p.numIntervals != N or p.polyOrder != n:
            return 'bounds %r, %r intervals, order %r' % (p.intervalBounds, p.numIntervals, p.polyOrder)
        for nm, v, w in (('t0', p.t0, d['T'][0]), ('tf', p.tf, d['T'][-1]), ('intervalLength', p.intervalLength(), d['T'][-1] - d['T'][0])):
            if not abs(v - w) <= 16 * EPS * s + 4 * EPS:
                return '%s is %r instead of %r' % (nm, v, w)
        return None
    S, tol = slopes(d, d['y'])
    if d['kind'] == 'derivative':
        return compare(p.derivative(conv(d['y'], d['type'])), S, tol, 'derivative')
    V = p.integral(conv([[float(v) for v in row] for row in S], 'DM' if d['type'] == 'DM' else 'MX'))
    want = [[fr(v) - fr(row[0]) for v in row[1:]] for row in d['y']]
    T = []
    for i, row in enumerate(d['y']):
        m = max(abs(v) for v in row)
        T.append([(1e-10 + 256 * blur(d) * (n + 1) ** 4) * (m + 1e-30) * (1 + j // n) for j in range(N * n)])
    return compare(V, want, T, 'integral')
