"""Contract of PolynomialBasis as its callers see it (proved in c01, c02, c03)."""
from pyvc.term import *
from pyvc.values import *
from pyvc.models_np import asarr
from .spec import *
from casadi_extras.collocation import polynomial as P


def nodes_of(self):
    a = self.attrs['tau']
    return a.at, a.shape[0]


def new_basis(it, tau):
    """requires n >= 1 pairwise distinct nodes"""
    a = asarr(it, tau)
    if a.ndim == 0:
        a = Arr((ONE,), lambda i: scal0(a))
    n = a.shape[0]
    it.oblige('nodes-not-empty', le(1, n))
    i, j = fresh('i'), fresh('j')
    if not (a.body.op == 'app' and it.ctx.attrs.get(a.body.args[0], {}).get('inj') and a.body.args[1:] == a.vars):
        it.oblige('nodes-distinct', forall(i, ZERO, n, forall(j, ZERO, n, or_(eq(i, j), ne(a.at(i), a.at(j))))))
    o = Obj(P.PolynomialBasis)
    k, x = fresh('k'), fresh('x', 'R')
    o.attrs['tau'] = a.copy()
    o.attrs['D'] = Arr((n, n), lambda j, k: dmat(a.at, n, j, k))
    o.attrs['poly'] = Lst([Seg(n, k, [Poly(x, lag(a.at, n, k, x))])])
    return o


def scal0(a):
    return a.body


def interpolation_matrix(it, self, t):
    tau, n = nodes_of(self)
    if isinstance(t, T) or not is_symbolic(t) and not hasattr(t, '__len__'):
        t = lift(t)
        return Arr((ONE, n), lambda i, k: lag(tau, n, k, t))
    a = asarr(it, t)
    it.oblige('query-vector', lift(a.ndim <= 1))
    if a.ndim == 0:
        return Arr((ONE, n), lambda i, k: lag(tau, n, k, a.body))
    it.oblige('query-not-empty', le(1, a.shape[0]))
    return Arr((a.shape[0], n), lambda i, k: lag(tau, n, k, a.at(i)))


def compose(it, self, c):
    tau, n = nodes_of(self)
    a = asarr(it, c)
    it.oblige('coefficient-matrix', and_(lift(a.ndim == 2), eq(a.shape[1], n)))
    i, j, x = fresh('i'), fresh('j'), fresh('x', 'R')
    return Lst([Seg(a.shape[0], i, [Poly(x, sum_(j, ZERO, n, mul(a.at(i, j), lag(tau, n, j, x))))])])


BASIS = {('new', P.PolynomialBasis): new_basis, P.PolynomialBasis.interpolationMatrix: interpolation_matrix,
         P.PolynomialBasis.compose: compose}
