"""C09: the collocation equations evaluate the model at each point with its own data."""
from .scheme import *


class Equations(Unit):
    name = 'CollocationScheme (collocation equations, parameters)'
    targets = (C.CollocationScheme.__init__,)
    assumptions = (REAL, 'casadi matrix functions', 'casadi Function.map evaluates the function column by column', 'order >= 1, at least one interval')

    def cases(self):
        for label, cls, kw in CONFIGS:
            yield self.case(label, cls, kw)

    def case(self, label, cls, kw):
        NM = mul(N, M)
        rep, tdp = bool(kw.get('repeat_param')), bool(kw.get('tdp'))

        def observe(it, s):
            eq_ = it.getattr(s, 'eq')
            return [list(eq_.attrs['parts']), [csarr(it, a) for a in eq_.attrs['parts'].values()], it.getattr(s, 'p')]

        def post(it, v, ctx):
            yield 'entries', lift(v[0] == ['collocation', 'continuity', 'param'])
            if v[0] != ['collocation', 'continuity', 'param']:
                return
            col, cont, par = v[1]
            P = v[2]
            rows = add(nx, nz)
            i, n, j, q = fresh('i'), fresh('n'), fresh('j'), fresh('q')
            yield 'one-column-per-point', and_(eq(col.shape[0], rows), eq(col.shape[1], NM))
            yield 'residual-at-the-point', eq(col.at(i, add(mul(n, M), j)), residual('dae', i, n, j, rep, tdp)), \
                ctx.rng(i, ZERO, rows).rng(n, ZERO, N).rng(j, ZERO, M)
            yield 'parameter-symbol', lift(P.sym)
            yield 'parameter-shape', and_(eq(P.shape[0], np_), eq(P.shape[1], NM if rep else ONE))
            yield 'parameter', eq(P.at(i, q), app('sym:P', i, q)), ctx.rng(i, ZERO, np_).rng(q, ZERO, NM if rep else ONE)
            if rep:
                yield 'parameter-equations-shape', and_(eq(par.shape[0], np_), eq(par.shape[1], sub(NM, 1)))
                yield 'neighbouring-parameters-equal', eq(par.at(i, q), sub(app('sym:P', i, add(q, 1)), app('sym:P', i, q))), \
                    ctx.rng(i, ZERO, np_).rng(q, ZERO, sub(NM, 1))
            else:
                yield 'no-parameter-equations', eq(mul(*par.shape), 0)

        def native(d, s):
            r = evaluate(d, s, [s.eq[k] for k in s.eq.keys()] + [s.p])
            return [list(s.eq.keys()), r[:-1], r[-1]]
        return scheme_case(label, cls, kw, observe, post, native)


UNITS = [Equations]
