"""C02: differentiation matrices, collocation points, Chebyshev grid."""
import math
import casadi as cs
from .util import *
from .basis import BASIS
from casadi_extras.collocation import polynomial as P

n = var('n')


class DiffMatrix(Unit):
    name = 'PolynomialBasis.D'
    targets = (P.PolynomialBasis.__init__,)
    lean = ('deriv_exact',)
    assumptions = (DISTINCT, REAL)

    def cases(self):
        c = Case(label='any', ctx=nodes_ctx())
        c.run = lambda it: it.getattr(it.call(P.PolynomialBasis, [symarr('tau', n)], {}), 'D')

        def post(it, v, ctx):
            yield from arr_posts('D', v, (n, n), lambda j, k: dmat(fn('tau'), n, j, k), ctx)
        c.post = guard(post)

        def models(rng):
            for q in range(6):
                ta = rand_nodes(rng, q % 4 + 1)
                yield mkmodel({'n': len(ta)}, {'tau': ta}, inst=dict(kind='D', nodes=ta), tau=np.array(ta))
        c.models = models
        c.native = lambda m: P.PolynomialBasis(m.native['tau']).D
        yield c


class BasisFields(Unit):
    name = 'PolynomialBasis.tau/numPoints/order'
    targets = (P.PolynomialBasis.__init__, P.PolynomialBasis.numPoints.fget, P.PolynomialBasis.order.fget)
    assumptions = (DISTINCT, REAL)

    def cases(self):
        c = Case(label='any', ctx=nodes_ctx())

        def run(it):
            b = it.call(P.PolynomialBasis, [symarr('tau', n)], {})
            return (it.getattr(b, 'tau'), it.getattr(b, 'numPoints'), it.getattr(b, 'order'))
        c.run = run

        def post(it, v, ctx):
            yield from arr_posts('tau', v[0], (n,), lambda j: app('tau', j), ctx)
            yield 'numPoints', eq(v[1], n)
            yield 'order', eq(v[2], sub(n, 1))
        c.post = guard(post)

        def models(rng):
            for q in range(4):
                ta = rand_nodes(rng, q % 4 + 1)
                yield mkmodel({'n': len(ta)}, {'tau': ta}, inst=dict(kind='D', nodes=ta), tau=np.array(ta))
        c.models = models

        def native(m):
            b = P.PolynomialBasis(m.native['tau'])
            return b.tau, b.numPoints, b.order
        c.native = native
        yield c


def cheb_node(k, n):
    return div(sub(R(1), app('cos', div(mul(app('pi'), k), n))), R(2))


def colp(it, order, scheme):
    """cs.collocation_points: a list of `order` numbers depending only on the arguments"""
    i = fresh('i')
    return Lst([Seg(lift(order), i, [app('colp_' + scheme, lift(order), i)])])


SCHEMES = ('radau', 'legendre')


class Points(Unit):
    name = 'collocationPoints'
    targets = (P.collocationPoints,)
    lean = ('cheb_ascending', 'cheb_ends')
    assumptions = (REAL, 'casadi.collocation_points(order, scheme) returns `order` points')

    def cases(self):
        c = Case(label='chebyshev', ctx=Ctx([le(0, n)]))
        c.run = lambda it: it.call(P.collocationPoints, [n, 'chebyshev'], {})

        def post(it, v, ctx):
            yield from arr_posts('chebyshev', v, (add(n, 1),), lambda k: ite(eq(n, 0), R(0), cheb_node(k, n)), ctx)
        c.post = guard(post)
        c.models = lambda rng: [mkmodel({'n': q}, inst=dict(kind='points', order=q, scheme='chebyshev')) for q in range(6)]
        c.native = lambda m: P.collocationPoints(int(m.vars['n']), 'chebyshev')
        yield c
        for s in SCHEMES:
            c = Case(label=s, ctx=Ctx([le(1, n)]), tables=[{cs.collocation_points: colp}])
            c.run = lambda it, s=s: it.call(P.collocationPoints, [n, s], {})

            def post(it, v, ctx, s=s):
                yield from arr_posts(s, v, (add(n, 1),), lambda k: ite(eq(k, 0), R(0), app('colp_' + s, n, sub(k, 1))), ctx)
            c.post = guard(post)
            c.models = lambda rng, s=s: [mkmodel({'n': q}, funs={'colp_' + s: lambda o, i, s=s: Fraction(cs.collocation_points(int(o), s)[int(i)])},
                                                 inst=dict(kind='points', order=q, scheme=s)) for q in range(1, 6)]
            c.native = lambda m, s=s: P.collocationPoints(int(m.vars['n']), s)
            yield c


def points_contract(it, order, scheme):
    """as proved by the unit Points; the Chebyshev nodes are `cheb` (ascending: Lean cheb_ascending)"""
    order = lift(order)
    if scheme == 'chebyshev':
        it.oblige('order-not-negative', le(0, order))
        return Arr((add(order, 1),), lambda k: app('cheb', k))
    it.oblige('order-positive', le(1, order))
    return Arr((add(order, 1),), lambda k: ite(eq(k, 0), R(0), app('colp_' + scheme, order, sub(k, 1))))


class Cheb(Unit):
    name = 'cheb'
    targets = (P.cheb,)
    lean = ('dmat_affine', 'cheb_ascending')
    assumptions = (REAL,)

    def cases(self):
        t0, tf = var('t0', 'R'), var('tf', 'R')
        N = add(n, 1)
        ctx = Ctx([le(0, n), ne(t0, tf)], {'cheb': dict(n=N, inj=True)}, [BaryLemma('cheb', N)])
        c = Case(label='any', ctx=ctx, contracts={**BASIS, P.collocationPoints: points_contract})
        c.run = lambda it: it.call(P.cheb, [n, t0, tf], {})

        def post(it, v, ctx):
            if not (isinstance(v, tuple) and len(v) == 2):
                yield 'pair', FALSE
                return
            yield from arr_posts('D', v[0], (N, N), lambda j, k: div(dmat(fn('cheb'), N, j, k), sub(tf, t0)), ctx)
            yield from arr_posts('t', v[1], (N,), lambda k: add(t0, mul(app('cheb', k), sub(tf, t0))), ctx)
        c.post = guard(post)

        def models(rng):
            for q in range(5):
                a, b = rng.randint(-9, 9) / 4, rng.randint(10, 30) / 4
                if q == 4:
                    a, b = b, a
                yield mkmodel({'n': q, 't0': a, 'tf': b}, funs={'cheb': lambda k, q=q: Fraction((1 - math.cos(math.pi * int(k) / q)) / 2) if q else Fraction(0)},
                              inst=dict(kind='cheb', order=q, t0=a, tf=b))
        c.models = models
        c.native = lambda m: P.cheb(int(m.vars['n']), float(m.vars['t0']), float(m.vars['tf']))
        yield c


UNITS = [DiffMatrix, BasisFields, Points, Cheb]
