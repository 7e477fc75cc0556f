"""Symbolic differential-quadrature grids."""
import casadi as cs
from .util import *
from pyvc.term import Undef
from .basis import BASIS
from pyvc.models_np import asarr
from pyvc.prove import prove, prove_eq, simp, replace
from casadi_extras.collocation import collocation as C, polynomial as P

N, n, r, m = var('N'), var('n'), var('r'), var('m')
T_, node = fn('T'), fn('node')
hn = lambda k: sub(T_(add(k, 1)), T_(k))
GRID = 'collocation points ascend strictly from 0 to 1 (Lean cheb_ascending, cheb_ends; assumed for casadi.collocation_points radau)'


def tk(k):
    """nodes of interval k"""
    return lambda j: add(mul(node(j), hn(k)), T_(k))


def points(it, order, scheme='chebyshev'):
    """C02: ascending nodes from 0 to 1"""
    it.oblige('grid-order', eq(lift(order), n))
    it.oblige('grid-type', lift(scheme in ('chebyshev', 'radau')))
    it.grid = scheme
    return Arr((add(n, 1),), lambda k: node(k))


def pdq_ctx(extra=()):
    return Ctx([le(1, N), le(1, n), eq(node(ZERO), R(0)), eq(node(n), R(1))] + list(extra),
               {'T': dict(n=add(N, 1), inj=True, sorted=True), 'node': dict(n=add(n, 1), inj=True, sorted=True)})


def affine_basis(it, tau):
    """basis on a + h node(0..n), h != 0: D(a, h, j, l) names its differentiation matrix"""
    a = asarr(it, tau)
    it.oblige('interval-nodes', and_(lift(a.ndim == 1), eq(a.shape[0], add(n, 1))))
    j = fresh('j')
    ends = {node(ZERO): R(0), node(n): R(1)}
    t0 = replace(simp(a.at(ZERO), it.ctx), ends)
    h = sub(replace(simp(a.at(n), it.ctx), ends), t0)
    c = it.ctx.rng(j, ZERO, add(n, 1))
    it.obls.append(('nodes-affine', eq(a.at(j), add(mul(h, node(j)), t0)), c))
    it.oblige('nodes-distinct', ne(h, R(0)))
    o = Obj(P.PolynomialBasis)
    k, x = fresh('k'), fresh('x', 'R')
    o.attrs['tau'] = a.copy()
    o.attrs['D'] = Arr((add(n, 1), add(n, 1)), lambda j, l: app('D', t0, h, j, l))
    return o


def Dk(k, j, l):
    """differentiation matrix of interval k"""
    return app('D', T_(k), hn(k), j, l)


def native_D(nodes):
    nodes = [Fraction(x) for x in nodes]

    def f(a, h, j, l):
        t = [a + h * x for x in nodes]
        j, l = int(j), int(l)
        if not (0 <= j < len(t) and 0 <= l < len(t)):
            raise Undef('index out of range of D')
        w = lambda k: Fraction(1) / np.prod([t[k] - t[r] for r in range(len(t)) if r != k] or [Fraction(1)])
        off = lambda l: w(l) / w(j) / (t[j] - t[l])
        return off(l) if j != l else -sum(off(i) for i in range(len(t)) if i != j)
    return f


PDQ = {**BASIS, P.collocationPoints: points, ('new', P.PolynomialBasis): affine_basis}


def build(it, kw=None, tkind='array'):
    k = fresh('k')
    t = symarr('T', add(N, 1)) if tkind == 'array' else Lst([Seg(add(N, 1), k, [T_(k)])])
    return it.call(C.Pdq, [t], dict(kw or {}, poly_order=n))


def native_nodes(order, scheme):
    return [0.0] + cs.collocation_points(order, scheme) if scheme != 'chebyshev' else [(1 - np.cos(np.pi * k / order)) / 2 for k in range(order + 1)]


def rand_grid(rng, scheme=None):
    NN, nn = rng.randint(1, 3), rng.randint(1, 4)
    T = [x / 2 for x in sorted(rng.sample(range(-12, 13), NN + 1))]
    return dict(T=T, order=nn, scheme=scheme)


def grid_model(d, vars=None, arrays=None, funs=None, inst=None, **native):
    nodes = native_nodes(d['order'], d['scheme'] or 'chebyshev')
    nodes[-1] = 1.0
    return mkmodel(dict({'N': len(d['T']) - 1, 'n': d['order']}, **(vars or {})), dict({'T': d['T'], 'node': nodes}, **(arrays or {})), funs=dict({'D': native_D(nodes)}, **(funs or {})), inst=dict(d, **(inst or {})), d=d, **native)


def native_grid(d):
    return C.Pdq(np.array(d['T']), d['order'], *([d['scheme']] if d['scheme'] else []))
