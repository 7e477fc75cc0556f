"""C10: quadratures of the scheme."""
from .scheme import *


class Quadratures(Unit):
    name = 'CollocationScheme (quadratures)'
    targets = (C.CollocationScheme.__init__,)
    assumptions = (REAL, 'casadi matrix functions', 'casadi Function.map evaluates the function column by column', 'order >= 1, at least one interval')

    def cases(self):
        for label, cls, kw in CONFIGS:
            yield self.case(label, cls, kw)

    def case(self, label, cls, kw):
        NM = mul(N, M)
        rep, tdp = bool(kw.get('repeat_param')), bool(kw.get('tdp'))

        def observe(it, s):
            return tuple(it.getattr(s, k) for k in ('quad', 'q', 'Q'))

        def post(it, v, ctx):
            quad, q, Q = v
            i, n, j, k = fresh('i'), fresh('n'), fresh('j'), fresh('k')
            for nm, a, w in (('quad', quad, NM), ('q', q, add(N, 1)), ('Q', Q, NM)):
                if not is_arr(a, 2):
                    yield nm + ':matrix', FALSE
                    return
                yield nm + ':shape', and_(eq(a.shape[0], nq), eq(a.shape[1], w))
            cn = ctx.rng(i, ZERO, nq).rng(n, ZERO, N)
            cj = cn.rng(j, ZERO, M)
            rate = lambda k: residual('quad', i, n, k, rep, tdp)
            yield 'rates', eq(quad.at(i, add(mul(n, M), j)), rate(j)), cj
            yield 'starts-at-zero', eq(q.at(i, ZERO), R(0)), ctx.rng(i, ZERO, nq)
            qk = lambda k: quad.at(i, add(mul(n, M), k))
            yield 'accumulates', eq(q.at(i, add(n, 1)), add(q.at(i, n), mul(hn(n), sum_(k, ZERO, M, mul(b_(k), qk(k)))))), cn
            yield 'at-points', eq(Q.at(i, add(mul(n, M), j)), add(q.at(i, n), mul(hn(n), sum_(k, ZERO, M, mul(A_(j, k), qk(k)))))), cj

        def native(d, s):
            return tuple(evaluate(d, s, [s.quad, s.q, s.Q]))
        return scheme_case(label, cls, kw, observe, post, native)


UNITS = [Quadratures]
