"""Piecewise polynomials shared by the oracles of C05 to C07."""
import numpy as np
from .common import *
from casadi_extras.collocation.polynomial import PolynomialBasis
from casadi_extras.collocation.piecewise_poly import PiecewisePoly


def rand_pp(rng):
    N = rng.choice([1, 1, 2, 2, 3, 4, 6]) if rng.random() < .93 else rng.randint(7, 13)
    n = rng.choice([1, 2, 2, 3, 4, 5])
    q = rng.choice([1, 1, 2, 3])
    c = rng.random()
    if c < .4:
        T = sorted(rng.sample(range(-20, 21), N + 1))
        T = [x * 0.5 for x in T]
    elif c < .7:
        s = 10.0 ** rng.choice([-7, -5, -3, -2, -1, 0, 1, 2, 3])
        T = [rng.uniform(-3, 3) * s]
        for _ in range(N):
            T.append(T[-1] + s * rng.uniform(.05, 2))
    elif c < .85:
        T = [float(k) for k in range(N + 1)]
    else:
        T = [0.0]
        for _ in range(N):
            T.append(T[-1] + 2.0 ** rng.randint(-6, 4))
    z = rng.random()
    if z < .25:
        C = [[[rng.choice([0, 1, 1, -2]) for _ in range(n)] for _ in range(q)] for _ in range(N)]
    elif z < .4:
        C = [[[v] * n for v in [rng.randint(-3, 3) for _ in range(q)]] for _ in range(N)]
    else:
        C = [[[rng.uniform(-4, 4) for _ in range(n)] for _ in range(q)] for _ in range(N)]
    nodes = distinct(rng, n, rng.choice(['unit', 'desc', 'radau', 'radau', 'sym']))
    return dict(nodes=nodes, T=T, C=C, ints=z < .4 and rng.random() < .5, tlist=rng.random() < .2)


def make(d, basis=None):
    C = [np.array(x, dtype=int if d.get('ints') else float) for x in d['C']]
    T = [int(x) for x in d['T']] if d.get('tint') else d['T']
    return PiecewisePoly(T if d.get('tlist') else np.array(T), C, basis or PolynomialBasis(np.array(d['nodes'])))


def piece_of(T, x, side):
    N = len(T) - 1
    k = sum(1 for b in T if (b <= x if side == 'right' else b < x)) - 1
    return min(max(k, 0), N - 1)


def value(d, k, x, der=0):
    """exact values (and magnitudes) of all components of piece k at time x"""
    T = [fr(b) for b in d['T']]
    tau = [fr(b) for b in d['nodes']]
    h = T[k + 1] - T[k]
    s = (fr(x) - T[k]) / h
    n = len(tau)
    P = [cardinal_poly(tau, j) for j in range(n)]
    if der:
        P = [pder(p) for p in P]
    L = [peval(p, s) for p in P]
    out, mag = [], []
    lag = float(sum(abs(v) for v in L))
    for row in d['C'][k]:
        out.append(sum(fr(c) * v for c, v in zip(row, L)) / h ** der)
        # conditioning with respect to the rounding of the local time
        dl = [peval(pder(p), s) for p in P]
        rel = float(sum(abs(fr(c) * v) for c, v in zip(row, L)))
        sl = float(sum(abs(fr(c) * v) for c, v in zip(row, dl)))
        ds = float((abs(fr(x)) + abs(T[k]) + abs(T[k + 1])) / h) + abs(float(s))
        mag.append((rel * (1 + lag) + sl * ds + max(abs(float(fr(c))) for c in row) * lag) / float(h) ** der)
    return out, mag


def cmp_values(V, d, ks, xs, what, der=0, factor=1):
    q = len(d['C'][0])
    r = shape_is(V, (q, len(xs)), what)
    if r:
        return r
    n = len(d['nodes'])
    for a, (k, x) in enumerate(zip(ks, xs)):
        ref, mag = value(d, k, x, der)
        for i in range(q):
            if not np.isfinite(V[i, a]):
                return '%s: component %d at %r is %r' % (what, i, x, V[i, a])
            tol = factor * 200 * (n + 1) ** 2 * EPS * (mag[i] + 1e-300)
            if abs(float(fr(V[i, a]) - ref[i])) > tol:
                return '%s: component %d at %r is %r, piece %d has %r (tolerance %g)' % (what, i, x, V[i, a], k, float(ref[i]), tol)
    return None


def rand_times(rng, d, m):
    T = d['T']
    out = []
    for _ in range(m):
        c = rng.random()
        if c < .4:
            out.append(rng.choice(T))
        elif c < .6:
            b = rng.choice(T)
            out.append(float(np.nextafter(b, rng.choice([-1e9, 1e9]))) if b else rng.choice([-1e-200, 1e-200]))
        elif c < .85:
            out.append(rng.uniform(T[0], T[-1]))
        else:
            w = (T[-1] - T[0])
            out.append(rng.choice([T[0] - w * rng.random() * .5, T[-1] + w * rng.random() * .5]))
    return out
