"""C06: derivative and extracted polynomials of piecewise polynomials."""
from .pieces import *
from .c05 import in_piece


def dpiece(k, i, x):
    """derivative with respect to local time of component i of piece k (Lean: piece_deriv)"""
    j, r = fresh('j'), fresh('r')
    return sum_(j, ZERO, n, mul(sum_(r, ZERO, n, mul(c(k, i, r), dmat(tau, n, j, r))), lag(tau, n, j, x)))


class Derivative(Unit):
    name = 'PiecewisePoly.derivative'
    targets = (PP.PiecewisePoly.derivative, PP.PiecewisePoly.__init__, PP.PiecewisePoly.__call__, PP.PiecewisePoly.intervals.fget, PP.PiecewisePoly.numIntervals.fget)
    lean = ('piece_deriv',)
    assumptions = (DISTINCT, REAL, 'interval boundaries ascend strictly')

    def cases(self):
        for side in ('right', 'left'):
            yield self.case(side)

    def case(self, side):
        cs_ = Case(label=side, ctx=pp_ctx([le(1, m)]), contracts=BASIS)

        def run(it):
            f = build(it)
            d = it.call(it.getattr(f, 'derivative'), [], {})
            x = symarr('x', m)
            return (it.call(d, [x, side], {}), it.getattr(d, 'intervals'), it.getattr(d, 'numIntervals'),
                    it.call(f, [x, side], {}), it.getattr(f, 'intervals'))
        cs_.run = run

        def post(it, r, ctx):
            v, iv, ni, w, iw = r
            if not is_arr(v, 2) or not is_arr(w, 2):
                yield 'two-dimensional', FALSE
                return
            b, i, k = fresh('b'), fresh('i'), fresh('k')
            cc = ctx.rng(b, ZERO, q).rng(k, ZERO, N).rng(i, ZERO, m)
            x = app('x', i)
            cc = cc + [in_piece(k, x, side)]
            for nm, a in (('derivative', v), ('original', w)):
                yield nm + ':rows', eq(a.shape[0], q)
                yield nm + ':columns', eq(a.shape[1], m)
            yield 'derivative-of-the-piece', eq(v.at(b, i), div(dpiece(k, b, local(k, x)), sub(t(add(k, 1)), t(k)))), cc
            yield 'frame:original-value', eq(w.at(b, i), piece(k, b, local(k, x))), cc
            yield from arr_posts('intervals', iv, (add(N, 1),), t, ctx)
            yield from arr_posts('frame:intervals', iw, (add(N, 1),), t, ctx)
            yield 'numIntervals', eq(ni, N)
        cs_.post = guard(post)

        def models(rng):
            for _ in range(6):
                d, vs, ar = rand_pp(rng)
                mm = rng.randint(1, 4)
                x = [rng.choice(d['T']) if rng.random() < .4 else rng.randint(-40, 40) / 5 for _ in range(mm)]
                yield mkmodel(dict(vs, m=mm), dict(ar, x=x), inst=dict(d, t=x, kind='derivative'), d=d, x=np.array(x))
        cs_.models = models

        def native(mo):
            f = native_pp(mo.native['d'])
            d = f.derivative()
            x = mo.native['x']
            return d(x, side), d.intervals, d.numIntervals, f(x, side), f.intervals
        cs_.native = native
        cs_.tol = 1e-5
        return cs_


class Extract(Unit):
    name = 'PiecewisePoly.poly'
    targets = (PP.PiecewisePoly.poly,)
    lean = ('interp_exact',)
    assumptions = (DISTINCT, REAL, 'interval boundaries ascend strictly')

    def cases(self):
        k = var('k')
        cs_ = Case(label='any', ctx=pp_ctx([le(0, k), lt(k, N)]), contracts=BASIS)

        cs_.run = lambda it: it.call(it.getattr(build(it), 'poly'), [k], {})

        def post(it, v, ctx):
            if not isinstance(v, (list, tuple)):
                yield 'list', FALSE
                return
            yield 'length', eq(length(it, v), q)
            i, s = fresh('i'), fresh('s', 'R')
            cc = ctx.rng(i, ZERO, q)
            p = elem(it, v, i, cc)
            if not isinstance(p, Poly):
                yield 'polynomial', FALSE
                return
            yield 'value-at-start-plus-s', eq(p.at(s), piece(k, i, div(s, sub(t(add(k, 1)), t(k))))), cc
        cs_.post = guard(post)

        def models(rng):
            for _ in range(8):
                d, vs, ar = rand_pp(rng)
                kk = rng.randrange(len(d['C']))
                yield mkmodel(dict(vs, k=kk), ar, inst=dict(d, k=kk, kind='poly', t=[d['T'][0], d['T'][-1]]), d=d)
        cs_.models = models
        cs_.native = lambda mo: native_pp(mo.native['d']).poly(int(mo.vars['k']))
        cs_.tol = 1e-4
        yield cs_


UNITS = [Derivative, Extract]
