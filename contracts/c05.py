"""C05: evaluation of piecewise polynomials."""
from .pieces import *


def in_piece(k, x, side):
    """x belongs to piece k (boundary points to the right / left piece, outside points to the end pieces)"""
    if side == 'right':
        lo, hi = le(t(k), x), lt(x, t(add(k, 1)))
    else:
        lo, hi = lt(t(k), x), le(x, t(add(k, 1)))
    return and_(or_(eq(k, 0), lo), or_(eq(k, sub(N, 1)), hi))


class Eval(Unit):
    name = 'PiecewisePoly.__call__'
    targets = (PP.PiecewisePoly.__init__, PP.PiecewisePoly.__call__)
    lean = ('interp_exact',)
    assumptions = (DISTINCT, REAL, 'interval boundaries ascend strictly')

    def cases(self):
        for side in ('right', 'left', 'default'):
            for kind in ('vector', 'scalar'):
                yield self.case(side, kind)
        for bad in ('both', '', None, 'Right'):
            yield self.reject(bad)

    def case(self, side, qk):
        cs_ = Case(label='%s %s' % (side, qk), ctx=pp_ctx([le(1, m)] if qk == 'vector' else [eq(m, 1)]), contracts=BASIS)

        def run(it):
            f = build(it)
            x = symarr('x', m) if qk == 'vector' else app('x', ZERO)
            return it.call(f, [x] + ([side] if side != 'default' else []), {})
        cs_.run = run
        s = 'right' if side == 'default' else side

        def post(it, v, ctx):
            if not is_arr(v, 2):
                yield 'two-dimensional', FALSE
                return
            yield 'rows', eq(v.shape[0], q)
            yield 'columns', eq(v.shape[1], m)
            b, i, k = fresh('b'), fresh('i') if qk == 'vector' else ZERO, fresh('k')
            cc = ctx.rng(b, ZERO, q).rng(k, ZERO, N)
            if qk == 'vector':
                cc = cc.rng(i, ZERO, m)
            x = app('x', i)
            yield 'value-of-the-piece', eq(v.at(b, i), piece(k, b, local(k, x))), cc + [in_piece(k, x, s)]
        cs_.post = guard(post)

        def models(rng):
            for _ in range(6):
                d, vs, ar = rand_pp(rng)
                mm = rng.randint(1, 4) if qk == 'vector' else 1
                x = [rng.choice(d['T']) if rng.random() < .5 else rng.randint(-40, 40) / 5 for _ in range(mm)]
                inst = dict(d, t=x, continuity=None if side == 'default' else side, scalar=qk == 'scalar')
                yield mkmodel(dict(vs, m=mm), dict(ar, x=x), inst=inst, d=d, x=np.array(x) if qk == 'vector' else x[0])
        cs_.models = models
        cs_.native = lambda mo: native_pp(mo.native['d'])(mo.native['x'], *([side] if side != 'default' else []))
        cs_.tol = 1e-5
        return cs_

    def reject(self, bad):
        cs_ = Case(label='continuity %r' % (bad,), ctx=pp_ctx([le(1, m)]), contracts=BASIS)
        cs_.run = lambda it: it.call(build(it), [symarr('x', m), bad], {})

        def post(it, kind, v, ctx):
            yield 'rejected', lift(kind == 'raise' and issubclass(v.etype, ValueError))
        cs_.post = post

        def models(rng):
            d, vs, ar = rand_pp(rng)
            yield mkmodel(dict(vs, m=1), dict(ar, x=[.5]), inst=dict(d, t=[.5], continuity=bad, bad=True), d=d)
        cs_.models = models
        cs_.native = lambda mo: native_pp(mo.native['d'])(np.array([.5]), bad)
        return cs_


UNITS = [Eval]
