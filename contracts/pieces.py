"""Symbolic piecewise polynomials and the contract of PiecewisePoly."""
from .util import *
from .basis import BASIS
from pyvc.models_np import asarr
from casadi_extras.collocation import piecewise_poly as PP, polynomial as P

N, n, q, m = var('N'), var('n'), var('q'), var('m')
c = fn('c')           # c(interval, component, basis index)
t = fn('T')           # interval boundaries
tau = fn('tau')


def pp_ctx(extra=()):
    """ascending boundaries T(0..N), distinct nodes tau(0..n-1), q components"""
    return Ctx([le(1, N), le(1, n), le(1, q)] + list(extra),
               {'tau': dict(n=n, inj=True), 'T': dict(n=add(N, 1), inj=True, sorted=True)}, [BaryLemma('tau', n)])


def coefs():
    k = fresh('k')
    return Lst([Seg(N, k, [Arr((q, n), lambda i, j: c(k, i, j))])])


def boundaries():
    return symarr('T', add(N, 1))


def build(it, **kw):
    b = it.call(P.PolynomialBasis, [symarr('tau', n)], {})
    return it.call(PP.PiecewisePoly, [boundaries(), coefs(), b], {})


def piece(k, i, x):
    """component i of piece k at local time x"""
    j = fresh('j')
    return sum_(j, ZERO, n, mul(c(k, i, j), lag(tau, n, j, x)))


def local(k, x):
    return div(sub(x, t(k)), sub(t(add(k, 1)), t(k)))


def rand_pp(rng, k=0):
    NN, nn, qq = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
    T = sorted(rng.sample(range(-12, 13), NN + 1))
    T = [x / 2 for x in T]
    ta = rand_nodes(rng, nn)
    C = [[[rng.randint(-4, 4) for _ in range(nn)] for _ in range(qq)] for _ in range(NN)]
    return dict(nodes=ta, T=T, C=C), {'N': NN, 'n': nn, 'q': qq}, {'tau': ta, 'T': T, 'c': C}


def native_pp(d):
    return PP.PiecewisePoly(np.array(d['T']), [np.array(x, dtype=float) for x in d['C']], P.PolynomialBasis(np.array(d['nodes'])))
