"""Concrete collocation schemes of generic nonlinear models and their reference values, computed point by point."""
import casadi as cs
from .common import *
from casadi_extras import dae_model as D
from casadi_extras.collocation import collocation as C


def poly_model(kind, i, v):
    """a nonlinear function of the values v, the same for numbers and for casadi expressions"""
    r = (i + 1) + (2 if kind == 'quad' else 0)
    for k, x in enumerate(v):
        r = r + ((3 * i + 2 * k + len(kind)) % 5 - 2) * x
        r = r + (((i + k) % 3) - 1) * x * v[(k + i + 1) % len(v)]
    return r


def soft(i, d, x, z, u, p, t, tdp):
    """right-hand sides of a well-conditioned nonlinear model"""
    o = list(z) + list(u) + list(p) + [t] + list(tdp)
    r = (i + 1) / 4
    for k, v in enumerate(x):
        r = r + (-1 if k == i else ((i + 2 * k) % 3 - 1) / 4) * v
    for k, v in enumerate(o):
        r = r + ((2 * i + k) % 5 - 2) / (16 if k < len(z) else 4) * v
    return r + x[i % len(x)] * x[(i + 1) % len(x)] / 32


def soft_row(i, d, xdot, x, z, u, p, t, tdp):
    g = soft(i, d, x, z, u, p, t, tdp)
    if i < d['nx']:
        return xdot[i] - g if d['semi'] else 2 * xdot[i] + xdot[(i + 1) % d['nx']] / 8 - g
    return 3 * z[i - d['nx']] + g


def tdp_at(d, i, t):
    """a schedule that starts with whole numbers, or a smooth function"""
    return i + 2 if d.get('tdpint') and t < (d['T'][0] + d['T'][-1]) / 2 else tdp_value(i, t)


def tdp_value(i, t):
    return (i + 1) * t * t - 2 * t + i


OPTIONS = [{}, dict(method='radau'), dict(repeat_param=True), dict(expand=False), dict(tdp=True), dict(tdp=True, repeat_param=True, expand=False),
           dict(parallelization='unroll'), dict(parallelization='thread', method='radau', repeat_param=True), dict(expand=False, options={}, method='radau'),
           dict(parallelization='unroll', expand=False, tdp=True), dict(method='legendre', expand=True, repeat_param=False)]


def rand_scheme(rng, big=False):
    kw = dict(rng.choice(OPTIONS))
    d = dict(N=rng.choice([1, 2, 2, 3, 3, 4, 6, 1, 2, 3, 4, 12] if big else [1, 2, 3]), M=rng.choice([1, 2, 3, 3, 4, 5] if big else [1, 2, 3]), nx=rng.choice([1, 1, 2, 3]), nz=rng.choice([0, 0, 1, 2]),
             nu=rng.choice([0, 1, 2, 3]), np=rng.choice([0, 1, 2, 3]), nq=rng.choice([0, 1, 2]), ntdp=rng.choice([1, 2]) if kw.get('tdp') else 0)
    t = [rng.choice([0., 0., 1., -2.5, 10.])]
    eq = rng.random() < .25
    near = rng.choice([0, 0, 1e-2, 1e-3, 1e-5])     # steps that are almost the same
    for _ in range(d['N']):
        t.append(t[-1] + ((.5 if t[0] else 1.) * (1 + near * rng.randint(-2, 2)) if eq else rng.choice([.5, 1., 2., .25, .1, 3.])))
    d['T'] = t
    d['taslist'] = rng.random() < .2
    d['tint'] = all(v == int(v) for v in t) and rng.random() < .6
    d['semi'] = rng.random() < .5
    d['tdpint'] = bool(d['ntdp']) and rng.random() < .5
    d['kw'] = kw
    g = lambda r, c: [[rng.randint(-8, 8) / 4 for _ in range(c)] for _ in range(r)]
    NM = d['N'] * d['M']
    d['x'], d['K'], d['Z'], d['u'] = g(d['nx'], d['N'] + 1), g(d['nx'], NM), g(d['nz'], NM), g(d['nu'], d['N'])
    d['P'] = g(d['np'], NM if kw.get('repeat_param') else 1)
    return d


def build_model(d):
    S = lambda n, k: cs.MX.sym(n, k)
    x, z, u, p, t, tdp = S('x', d['nx']), S('z', d['nz']), S('u', d['nu']), S('p', d['np']), S('t', 1), S('tdp', d['ntdp'])
    v = lambda *l: [q for a in l for q in cs.vertsplit(a)] if l else []
    base = v(x, z, u, p, t, tdp)
    rows = lambda kind, n, vs, o=0: cs.vertcat(*[poly_model(kind, i + o, vs) for i in range(n)]) if n else cs.MX(0, 1)
    if d.get('soft'):
        V = lambda a: cs.vertsplit(a) if a.numel() else []
        a = (V(x), V(z), V(u), V(p), t, V(tdp))
        if d['semi']:
            return D.SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, tdp=tdp, ode=cs.vertcat(*[soft(i, d, *a) for i in range(d['nx'])]),
                                     alg=cs.vertcat(*[soft_row(d['nx'] + i, d, None, *a) for i in range(d['nz'])]) if d['nz'] else cs.MX(0, 1), quad=rows('quad', d['nq'], base))
        xd = S('xdot', d['nx'])
        return D.ImplicitDae(xdot=xd, x=x, z=z, u=u, p=p, t=t, tdp=tdp, dae=cs.vertcat(*[soft_row(i, d, V(xd), *a) for i in range(d['nx'] + d['nz'])]),
                             quad=rows('quad', d['nq'], v(xd) + base))
    if d['semi']:
        q = rows('quad', d['nq'], base)
        return D.SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, tdp=tdp, ode=rows('dae', d['nx'], base), alg=rows('dae', d['nz'], base, d['nx']), quad=q)
    xd = S('xdot', d['nx'])
    base = v(xd) + base
    return D.ImplicitDae(xdot=xd, x=x, z=z, u=u, p=p, t=t, tdp=tdp, dae=rows('dae', d['nx'] + d['nz'], base), quad=rows('quad', d['nq'], base))


def build_native(d):
    """-> model, scheme"""
    m = build_model(d)
    kw = dict(d['kw'])
    if kw.pop('tdp', False):
        kw['tdp_fun'] = lambda t: (np.array if d.get('tdpint') else cs.DM)([tdp_at(d, i, float(t)) for i in range(d['ntdp'])])
    return m, C.CollocationScheme(m, list(d['T']) if d.get('taslist') else np.array([int(v) for v in d['T']] if d.get('tint') else d['T']), d['M'], **kw)


def evaluate(d, s, exprs):
    """numeric values of expressions of the scheme's variables"""
    if not exprs:
        return []
    f = cs.Function('f', [s.x, s.K, s.Z, s.u, s.p], [cs.MX(e) for e in exprs])
    mat = lambda a, e: cs.DM(np.array(a, dtype=float).reshape(e.shape)) if e.numel() else cs.DM(*e.shape)
    r = f(mat(d['x'], s.x), mat(d['K'], s.K), mat(d['Z'], s.Z), mat(d['u'], s.u), mat(d['P'], s.p))
    return [np.array(a) for a in (r if isinstance(r, (list, tuple)) else [r])]


def point_model(d, kind):
    """model output `kind` at a point as a function of its data"""
    def g(i, xdot, x, z, u, p, t, tdp):
        i = int(i)
        vs = list(x) + list(z) + list(u) + list(p) + [t] + list(tdp)
        if not d['semi']:
            vs = list(xdot) + vs
        if d.get('soft') and kind == 'dae':
            return soft_row(i, d, xdot, x, z, u, p, t, tdp)
        r = poly_model(kind, i, vs)
        return xdot[i] - r if d['semi'] and kind == 'dae' and i < d['nx'] else r
    return g


_tab = {}


def tableau(order, method):
    k = (order, method)
    if k not in _tab:
        tau = cs.collocation_points(order, method)
        ft = [fr(x) for x in tau]
        ps = [pint(cardinal_poly(ft, j)) for j in range(order)]
        _tab[k] = ([[float(peval(p, x)) for p in ps] for x in ft], [float(peval(p, F(1))) for p in ps], [float(x) for x in tau])
    return _tab[k]


class Ref:
    """reference values, one point at a time"""

    def __init__(self, d):
        A, b, c = tableau(d['M'], d['kw'].get('method', 'legendre'))
        N, M = d['N'], d['M']
        T = d['T']
        self.X, self.res, self.quad, self.tc, self.U = [], [], [], [], []
        self.xf = []
        self.Qs, self.q = [], [[0.0] * d['nq']]
        x = lambda n: [d['x'][i][n] for i in range(d['nx'])]
        for n in range(N):
            h = T[n + 1] - T[n]
            K = [[d['K'][i][n * M + j] for i in range(d['nx'])] for j in range(M)]
            rates = []
            for j in range(M):
                p = n * M + j
                X = [x(n)[i] + h * sum(A[j][k] * K[k][i] for k in range(M)) for i in range(d['nx'])]
                t = T[n] + h * c[j]
                z = [r[p] for r in d['Z']]
                u = [r[n] for r in d['u']]
                P = [r[p if d['kw'].get('repeat_param') else 0] for r in d['P']]
                tdp = [tdp_at(d, i, t) for i in range(d['ntdp'])]
                self.X.append(X)
                self.tc.append(t)
                self.U.append(u)
                self.res.append([point_model(d, 'dae')(i, K[j], X, z, u, P, t, tdp) for i in range(d['nx'] + d['nz'])])
                rates.append([point_model(d, 'quad')(i, K[j], X, z, u, P, t, tdp) for i in range(d['nq'])])
            self.quad += rates
            self.xf.append([x(n)[i] + h * sum(b[k] * K[k][i] for k in range(M)) - x(n + 1)[i] for i in range(d['nx'])])
            for j in range(M):
                self.Qs.append([self.q[-1][i] + h * sum(A[j][k] * rates[k][i] for k in range(M)) for i in range(d['nq'])])
            self.q.append([self.q[-1][i] + h * sum(b[k] * rates[k][i] for k in range(M)) for i in range(d['nq'])])


def cmp(name, a, cols, rows):
    """a: matrix, cols: list of columns"""
    a = np.array(a, dtype=float)
    b = np.array(cols, dtype=float).reshape(len(cols), rows).T
    if a.shape != b.shape and not (a.size == b.size == 0):
        return '%s has shape %s instead of %s' % (name, a.shape, b.shape)
    if a.size == 0:
        return None
    sc = max(1.0, np.abs(b).max())
    e = np.abs(a - b)
    if not (e <= 1e-9 * sc).all():
        k = np.unravel_index(np.nanargmax(np.where(np.isnan(e), np.inf, e)), e.shape)
        return '%s[%d,%d] = %r instead of %r' % (name, k[0], k[1], a[k], b[k])
    return None


def first(*l):
    for f in l:
        r = f() if callable(f) else f
        if r:
            return r
    return None
