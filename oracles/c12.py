"""Native oracle of C12: slopes, nodes and ends of trajectories."""
from .scheme import *

cmp_ = cmp

BOUND = 'random boundary states and derivatives (satisfying the continuity equations), N <= 6 intervals, order <= 5; trajectories of the integrator for a nonlinear model'


def instances(rng, tier):
    while True:
        d = rand_scheme(rng, True)
        d['kind'] = 'trajectory' if rng.random() < .8 else 'evalX'
        d['scale'] = rng.choice([1, 1, 1, 1e-12, 1e9])
        d['again'] = rng.random() < .5
        yield d


def check(d):
    m, s = build_native(d)
    buf = cs.DM.zeros(d['nx'], d['N'] + 1), cs.DM.zeros(d['nx'], d['N'] * d['M'])
    r = check_data(d, s, buf)
    if r or not d.get('again'):
        return r
    # further data, partly the same, do not depend on the first
    g = lambda a: [[2 * v + 1 for v in row] for row in a]
    return check_data(dict(d, K=g(d['K'])), s, buf) or check_data(dict(d, x=[[v - 1 for v in row] for row in d['x']]), s, buf) or check_data(d, s, buf)


def check_data(d, s, buf):
    N, M, T = d['N'], d['M'], d['T']
    A, b, c = tableau(M, d['kw'].get('method', 'legendre'))
    sc = d.get('scale', 1)
    x = sc * np.array(d['x'], dtype=float).reshape(d['nx'], N + 1)
    K = sc * np.array(d['K'], dtype=float).reshape(d['nx'], N * M)
    cmp = lambda name, a, cols, rows: cmp_(name, np.array(a, dtype=float) / sc, [[v / sc for v in c] for c in cols], rows)
    X = np.zeros((d['nx'], N * M))
    for n in range(N):
        h = T[n + 1] - T[n]
        for j in range(M):
            X[:, n * M + j] = x[:, n] + h * sum(A[j][k] * K[:, n * M + k] for k in range(M))
        if d.get('kind') != 'evalX':
            x[:, n + 1] = x[:, n] + h * sum(b[k] * K[:, n * M + k] for k in range(M))
    cols = lambda a: [list(r) for r in a.T]
    xd, Kd = buf
    xd[:, :], Kd[:, :] = x, K
    if d.get('kind') == 'evalX':
        return cmp('evalX', s.evalX(xd, Kd), cols(X), d['nx'])
    tr = s.piecewisePolyX(xd, Kd)
    dt = tr.derivative()
    if not np.array_equal(np.array(xd), x) or not np.array_equal(np.array(Kd), K):
        return 'arguments modified'
    L = [min(T[n] + (T[n + 1] - T[n]) * cj, T[n + 1]) for n in range(N) for cj in c]
    # a Radau end point belongs to its interval from the left
    return first(
        lambda: cmp('trajectory at interval starts', tr(np.array(T[:-1])), cols(x[:, :-1]), d['nx']),
        lambda: cmp('trajectory at interval ends', tr(np.array(T[1:]), 'left'), cols(x[:, 1:]), d['nx']),
        lambda: cmp('trajectory at the collocation points', tr(np.array(L), 'left'), cols(X), d['nx']),
        lambda: cmpd(cmp, 'slope at the collocation points', dt(np.array(L), 'left'), cols(K), d['nx'], T),
        lambda: None if list(np.array(tr.intervals).flatten()) == list(T) else 'intervals differ')


def cmpd(cmp, name, a, cols, rows, T):
    h = min(b - a for a, b in zip(T, T[1:]))
    r = cmp(name, np.array(a) * h, [[v * h for v in c] for c in cols], rows)
    return r
