"""C01: interpolation matrices."""
import numpy as np
from fractions import Fraction
from pyvc.term import *
from pyvc.prove import Ctx
from pyvc.values import *
from pyvc.unit import *
from .spec import *
from .basis import BASIS
from casadi_extras.collocation import polynomial as P

n, m = var('n'), var('m')


def nodes_ctx(extra=(), name='tau', size=n):
    return Ctx([le(1, size)] + list(extra), {name: dict(n=size, inj=True)}, [BaryLemma(name, size)])


def rand_nodes(rng, k):
    s = set()
    while len(s) < k:
        s.add(Fraction(rng.randint(-12, 12), rng.choice([1, 2, 4, 8])))
    l = list(s)
    rng.shuffle(l)
    return [float(x) for x in l]


class InterpolationMatrix(Unit):
    name = 'PolynomialBasis.interpolationMatrix'
    targets = (P.PolynomialBasis.__init__, P.PolynomialBasis.interpolationMatrix)
    lean = ('bary_sum', 'interp_exact')
    assumptions = ('nodes are pairwise distinct', 'floating-point arithmetic is treated as exact real arithmetic')

    def cases(self):
        tau = symarr('tau', n)
        for label, mk in (('vector', lambda: symarr('t', m)), ('scalar', lambda: app('t', ZERO))):
            c = Case(label=label, ctx=nodes_ctx([le(1, m)] if label == 'vector' else [eq(m, 1)]))

            def run(it, mk=mk):
                b = it.call(P.PolynomialBasis, [tau], {})
                return it.call(it.getattr(b, 'interpolationMatrix'), [mk()], {})

            def post(it, kind, v, ctx, label=label):
                if kind == 'raise':
                    yield 'does-not-raise', FALSE
                    return
                if not isinstance(v, Arr) or v.ndim != 2:
                    yield 'two-dimensional', FALSE
                    return
                yield 'rows', eq(v.shape[0], m)
                yield 'columns', eq(v.shape[1], n)
                i, k = (fresh('i') if label == 'vector' else ZERO), fresh('k')
                yield 'cardinal-values', eq(v.at(i, k), lag(fn('tau'), n, k, app('t', i))), ctx.rng(i, ZERO, m).rng(k, ZERO, n)
            c.run, c.post = run, post

            def models(rng, label=label):
                for q in range(5):
                    k = rng.randint(1, 4)
                    ta = rand_nodes(rng, k)
                    mm = rng.randint(1, 3) if label == 'vector' else 1
                    ts = [rng.choice(ta) if rng.random() < .4 else rng.randint(-30, 30) / 7 for _ in range(mm)]
                    yield mkmodel({'n': k, 'm': mm}, {'tau': ta, 't': ts}, inst=dict(nodes=ta, t=ts, u=[[1.] * k], scalar=label == 'scalar'), tau=np.array(ta), t=np.array(ts) if label == 'vector' else ts[0])
            c.models = models
            c.native = lambda mo: P.PolynomialBasis(mo.native['tau']).interpolationMatrix(mo.native['t'])
            yield c



def vander_rule(it, A, B):
    """Lean: vander_unique.  A[j,k] = x_k^j with distinct x, B[j,i] = y_i^j: the solution is lag_k(y_i)"""
    if A.ndim != 2 or B.ndim != 2:
        return None
    nn = A.shape[0]
    j, k, i = fresh('j'), fresh('k'), fresh('i')
    c = it.ctx.rng(j, ZERO, nn).rng(k, ZERO, nn)
    x = lambda k: app('x', k)
    if not c.proves(eq(A.at(j, k), power(x(k), j))):
        return None
    c = it.ctx.rng(i, ZERO, B.shape[1]).rng(j, ZERO, nn)
    y = B.at(ONE, i)
    y = y if y.op != 'pow' else y.args[0]
    y = app('t', i) if it.ctx.rng(i, ZERO, B.shape[1]).proves(eq(B.at(j, i), power(app('t', i), j)), 1) else y
    if not c.proves(eq(B.at(j, i), power(y, j))):
        return None
    it.oblige('solve:square', and_(eq(nn, A.shape[1]), eq(nn, B.shape[0])))
    return Arr((nn, B.shape[1]), lambda k, q: lag(x, nn, k, subst(y, {i: q})))


class StandaloneInterpolator(Unit):
    assumptions = ('nodes are pairwise distinct', 'floating-point arithmetic is treated as exact real arithmetic')

    def cases(self):
        q = var('q')
        x = symarr('x', n)
        for label, mk in (('vector', lambda: symarr('t', m)), ('scalar', lambda: app('t', ZERO))):
            c = Case(label=label, ctx=nodes_ctx([le(1, q)] + ([le(1, m)] if label == 'vector' else [eq(m, 1)]), 'x'),
                     contracts=self.contracts, solve_rules=[vander_rule])

            def run(it, mk=mk):
                p = it.call(self.function, [x], {})
                return it.call(p, [symarr('u', q, n), mk()], {})

            def post(it, kind, v, ctx, label=label):
                if kind == 'raise':
                    yield 'does-not-raise', FALSE
                    return
                if not isinstance(v, Arr) or v.ndim != 2:
                    yield 'two-dimensional', FALSE
                    return
                yield 'rows', eq(v.shape[0], q)
                yield 'columns', eq(v.shape[1], m)
                i, k, b = (fresh('i') if label == 'vector' else ZERO), fresh('k'), fresh('b')
                yield 'polynomial-values', eq(v.at(b, i), sum_(k, ZERO, n, mul(app('u', b, k), lag(fn('x'), n, k, app('t', i))))), ctx.rng(i, ZERO, m).rng(b, ZERO, q)
            c.run, c.post = run, post

            def models(rng, label=label):
                for _ in range(5):
                    k = rng.randint(1, 4)
                    ta = rand_nodes(rng, k)
                    mm = rng.randint(1, 3) if label == 'vector' else 1
                    qq = rng.randint(1, 3)
                    u = [[rng.randint(-9, 9) / 2 for _ in range(k)] for _ in range(qq)]
                    ts = [rng.choice(ta) if rng.random() < .4 else rng.randint(-30, 30) / 7 for _ in range(mm)]
                    yield mkmodel({'n': k, 'm': mm, 'q': qq}, {'x': ta, 't': ts, 'u': u}, x=np.array(ta), u=np.array(u),
                                  t=np.array(ts) if label == 'vector' else ts[0], inst=dict(nodes=ta, t=ts, u=u, scalar=label == 'scalar'))
            c.models = models
            c.tol = 1e-5
            c.native = lambda mo: self.function(mo.native['x'])(mo.native['u'], mo.native['t'])
            yield c


class Barycentric(StandaloneInterpolator):
    name = 'barycentricInterpolator'
    function = staticmethod(P.barycentricInterpolator)
    targets = (P.barycentricInterpolator,)
    contracts = BASIS
    lean = ('interp_exact',)


class Power(StandaloneInterpolator):
    name = 'polynomialInterpolator'
    function = staticmethod(P.polynomialInterpolator)
    targets = (P.polynomialInterpolator,)
    contracts = {}
    lean = ('interp_exact', 'vander_unique')


UNITS = [InterpolationMatrix, Barycentric, Power]
