"""Native oracle of C01: exact Lagrange cardinal values against the real interpolators."""
import numpy as np
from .common import *
from casadi_extras.collocation.polynomial import PolynomialBasis, polynomialInterpolator, barycentricInterpolator

BOUND = 'random and adversarial node sets, n <= 14, up to 6 query points'


def instances(rng, tier):
    for n in (1, 2, 3, 5):
        yield dict(nodes=[float(i) for i in range(n)], t=[0.0, 0.5, float(n - 1), 1e-9], u=[[float(j * i + 1) for j in range(n)] for i in range(2)], as_int=True)
        yield dict(nodes=[float(n - i) for i in range(n)], t=[float(n)], u=[[1.0] * n], scalar=True)
    while True:
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 14])
        style = rng.choice([None, None, 'int'])
        tau = distinct(rng, n, style)
        scalar = rng.random() < .2
        m = 1 if scalar else rng.randint(1, 6)
        t = queries(rng, tau, m)
        u = [[rng.choice([0., 1., -1., rng.uniform(-5, 5)]) for _ in range(n)] for _ in range(rng.randint(1, 3))]
        yield dict(nodes=tau, t=t, u=u, scalar=scalar, as_int=style == 'int' and rng.random() < .5, aslist=rng.random() < .1)


def check(i):
    tau = i['nodes']
    n = len(tau)
    x = np.array(tau, dtype=int if i.get('as_int') else float)
    t = i['t'][0] if i.get('scalar') else np.array(i['t'])
    ft = [fr(v) for v in i['t']]
    ftau = [fr(v) for v in tau]
    m = len(ft)
    W = PolynomialBasis(tau if i.get('aslist') else x).interpolationMatrix(i['t'] if i.get('aslist') and not i.get('scalar') else t)
    r = shape_is(W, (m, n), 'interpolation matrix')
    if r:
        return r
    ref = [[cardinal(ftau, k, tq) for k in range(n)] for tq in ft]
    for a in range(m):
        leb = float(sum(abs(v) for v in ref[a]))
        for k in range(n):
            if ft[a] in ftau:
                if W[a, k] != float(ref[a][k]):
                    return 'W[%d,%d] = %r at a node, expected %r' % (a, k, W[a, k], float(ref[a][k]))
            else:
                e = abs(fr(W[a, k]) - ref[a][k]) if np.isfinite(W[a, k]) else F(10) ** 30
                tol = 60 * (n + 1) * EPS * (1 + leb) * abs(float(ref[a][k])) + 1e-290
                if float(e) > tol:
                    return 'W[%d,%d] = %r, exact cardinal value %r (tolerance %g)' % (a, k, W[a, k], float(ref[a][k]), tol)
    u = np.array(i['u'])
    val = [[sum(fr(row[k]) * ref[a][k] for k in range(n)) for a in range(m)] for row in i['u']]
    mag = [[float(sum(abs(fr(row[k]) * ref[a][k]) for k in range(n))) for a in range(m)] for row in i['u']]
    lebs = [float(sum(abs(v) for v in ref[a])) for a in range(m)]
    bary = barycentricInterpolator(x)
    V = bary(u, t)
    r = shape_is(V, (len(val), m), 'barycentric interpolation')
    if r:
        return r
    for b in range(len(val)):
        for a in range(m):
            if abs(float(fr(V[b, a]) - val[b][a])) > 100 * (n + 1) * EPS * (1 + lebs[a]) * (mag[b][a] + 1e-300):
                return 'barycentric value [%d,%d] = %r, expected %r' % (b, a, V[b, a], float(val[b][a]))
    if not i.get('scalar'):
        # the same interpolator again
        W = bary(2 * u, t[::-1])[:, ::-1]
        if W.shape != V.shape or any(abs(float(fr(W[b, a]) - 2 * val[b][a])) > 300 * (n + 1) * EPS * (1 + lebs[a]) * (mag[b][a] + 1e-300) for b in range(len(val)) for a in range(m)):
            return 'barycentric values of the reversed queries are %r instead of %r' % (W, 2 * V)
    if n <= 7 and (np.abs(tau).max() <= 30):
        X = np.array(tau)[None, :] ** np.arange(n)[:, None]
        c = np.linalg.cond(X)
        if c < 1e8:
            power = polynomialInterpolator(x)
            V = power(u, t)
            r = shape_is(V, (len(val), m), 'power-basis interpolation')
            if r:
                return r
            for b in range(len(val)):
                for a in range(m):
                    s = np.abs(u[b]).max() * lebs[a] * max(1, abs(i['t'][a])) ** n
                    if abs(float(fr(V[b, a]) - val[b][a])) > 1e3 * EPS * c * (s + 1e-300):
                        return 'power-basis value [%d,%d] = %r, expected %r' % (b, a, V[b, a], float(val[b][a]))
            if not i.get('scalar') and not np.allclose(power(2 * u, t[::-1]), (2 * V)[:, ::-1], rtol=1e-6, atol=1e3 * EPS * c * np.abs(u).max() * max(lebs) * max([1] + [abs(v) for v in i['t']]) ** n):
                return 'power-basis values of the reversed queries differ'
    return None
