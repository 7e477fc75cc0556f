"""C03: basis polynomials and their linear combinations."""
from .util import *
from .basis import BASIS
from casadi_extras.collocation import polynomial as P

n = var('n')


def poly_posts(name, it, v, ctx):
    """list of the n cardinal polynomials"""
    if not isinstance(v, (list, tuple)):
        yield name + ':list', FALSE
        return
    yield name + ':length', eq(length(it, v), n)
    k, x = fresh('k'), fresh('x', 'R')
    c = ctx.rng(k, ZERO, n)
    p = elem(it, v, k, c)
    if not isinstance(p, Poly):
        yield name + ':polynomial', FALSE
        return
    yield name + ':cardinal', eq(p.at(x), lag(fn('tau'), n, k, x)), c


class Polys(Unit):
    name = 'PolynomialBasis.poly'
    targets = (P.PolynomialBasis.__init__,)
    lean = ('lag_eq_basis', 'lag_degree', 'lag_node')
    assumptions = (DISTINCT, REAL)

    def cases(self):
        c = Case(label='any', ctx=nodes_ctx())
        c.run = lambda it: it.getattr(it.call(P.PolynomialBasis, [symarr('tau', n)], {}), 'poly')
        c.post = guard(lambda it, v, ctx: poly_posts('poly', it, v, ctx))

        def models(rng):
            for q in range(6):
                ta = rand_nodes(rng, q % 4 + 1)
                yield mkmodel({'n': len(ta)}, {'tau': ta}, inst=dict(nodes=ta, c=[[1.] * len(ta)]), tau=np.array(ta))
        c.models = models
        c.native = lambda m: P.PolynomialBasis(m.native['tau']).poly
        c.tol = 1e-5
        yield c


class Compose(Unit):
    name = 'PolynomialBasis.compose'
    targets = (P.PolynomialBasis.compose,)
    lean = ('lag_node',)
    assumptions = (DISTINCT, REAL)

    def cases(self):
        M = var('M')
        c = Case(label='any', ctx=nodes_ctx([le(0, M)]), contracts={k: v for k, v in BASIS.items() if k is not P.PolynomialBasis.compose})

        def run(it):
            b = it.call(P.PolynomialBasis, [symarr('tau', n)], {})
            co = symarr('c', M, n)
            q = it.call(it.getattr(b, 'compose'), [co], {})
            return q, it.getattr(b, 'poly'), co, it.getattr(b, 'tau'), it.getattr(b, 'D')
        c.run = run

        def post(it, v, ctx):
            q, poly, co, tau, D = v
            if not isinstance(q, (list, tuple)):
                yield 'list', FALSE
                return
            yield 'length', eq(length(it, q), M)
            i, j, x = fresh('i'), fresh('j'), fresh('x', 'R')
            cc = ctx.rng(i, ZERO, M)
            p = elem(it, q, i, cc)
            if not isinstance(p, Poly):
                yield 'polynomial', FALSE
                return
            yield 'linear-combination', eq(p.at(x), sum_(j, ZERO, n, mul(app('c', i, j), lag(fn('tau'), n, j, x)))), cc
            yield from poly_posts('frame:poly', it, poly, ctx)
            yield from arr_posts('frame:coefficients', co, (M, n), fn('c'), ctx)
            yield from arr_posts('frame:tau', tau, (n,), fn('tau'), ctx)
            yield from arr_posts('frame:D', D, (n, n), lambda j, k: dmat(fn('tau'), n, j, k), ctx)
        c.post = guard(post)

        def models(rng):
            for q in range(7):
                ta = rand_nodes(rng, q % 4 + 1)
                mm = rng.randint(1, 3)
                co = [[rng.randint(-3, 3) for _ in ta] for _ in range(mm)]
                yield mkmodel({'n': len(ta), 'M': mm}, {'tau': ta, 'c': co}, inst=dict(nodes=ta, c=co, as_int=True), tau=np.array(ta), c=np.array(co))
        c.models = models

        def native(m):
            b = P.PolynomialBasis(m.native['tau'])
            q = b.compose(m.native['c'])
            return q, b.poly, m.native['c'], b.tau, b.D
        c.native = native
        c.tol = 1e-5
        yield c


UNITS = [Polys, Compose]
