"""C07: discretisation of piecewise polynomials."""
import math
from .pieces import *

h = var('h', 'R')


class Discretize(Unit):
    name = 'PiecewisePoly.discretize'
    targets = (PP.PiecewisePoly.discretize,)
    lean = ('interp_exact',)
    assumptions = (DISTINCT, REAL, 'interval boundaries ascend strictly')

    def cases(self):
        cs_ = Case(label='any', ctx=pp_ctx([lt(R(0), h)]), contracts=BASIS)
        cs_.run = lambda it: it.call(it.getattr(build(it), 'discretize'), [h], {})

        def post(it, v, ctx):
            if not (isinstance(v, tuple) and len(v) == 2):
                yield 'pair', FALSE
                return
            x, y = v
            if not isinstance(x, Cat) or not isinstance(y, Cat):
                yield 'blocks', FALSE
                return
            yield 'one-block-per-interval', and_(eq(x.n, N), eq(y.n, N))
            k, i, b = fresh('k'), fresh('i'), fresh('b')
            ck = ctx.rng(k, ZERO, N)
            X, Y = x.at(k), y.at(k)
            w = X.shape[0]
            yield 'at-least-two-samples', le(2, w), ck
            yield 'starts-at-boundary', eq(X.at(ZERO), t(k)), ck
            yield 'ends-at-boundary', eq(X.at(sub(w, 1)), t(add(k, 1))), ck
            ci = ck.rng(i, ZERO, sub(w, 1))
            yield 'ascending', lt(X.at(i), X.at(add(i, 1))), ci
            yield 'steps-bounded', le(sub(X.at(add(i, 1)), X.at(i)), h), ci
            if Y.ndim != 2:
                yield 'value-matrix', FALSE
                return
            yield 'value-rows', eq(Y.shape[0], q), ck
            yield 'value-columns', eq(Y.shape[1], w), ck
            yield 'values', eq(Y.at(b, i), piece(k, b, local(k, X.at(i)))), ck.rng(i, ZERO, w).rng(b, ZERO, q)
        cs_.post = guard(post)

        def models(rng):
            for _ in range(10):
                d, vs, ar = rand_pp(rng)
                st = rng.choice([.25, .5, 1, 2, .75, 10, 3 / 7])
                # instances where rounding changes the number of samples do not test the extraction
                if any(len(np.arange(0, 1, st / (b - a))) != math.ceil(Fraction(b - a) / Fraction(st)) for a, b in zip(d['T'], d['T'][1:])):
                    continue
                yield mkmodel(dict(vs, h=st), ar, inst=dict(d, step=st), d=d, h=st)
        cs_.models = models
        cs_.native = lambda mo: native_pp(mo.native['d']).discretize(mo.native['h'])
        cs_.tol = 1e-5
        yield cs_


UNITS = [Discretize]
