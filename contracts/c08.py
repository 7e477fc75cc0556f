"""C08: the collocation scheme integrates by the Runge-Kutta formula."""
from .scheme import *


class Scheme(Unit):
    name = 'CollocationScheme (states, times, inputs, continuity)'
    targets = (C.CollocationScheme.__init__,)
    assumptions = (REAL, 'casadi matrix functions', 'order >= 1, at least one interval')

    def cases(self):
        for label, cls, kw in CONFIGS:
            yield self.case(label, cls, kw)

    def case(self, label, cls, kw):
        NM = mul(N, M)

        def observe(it, s):
            g = lambda k: it.getattr(s, k)
            return (g('X'), it.getitem(g('eq'), 'continuity'), g('tc'), g('U'), g('x'), g('K'), g('Z'), g('u'), g('numTotalCollocationPoints'),
                    g('xdot'), g('t'))

        def post(it, v, ctx):
            X, cont, tc, U, x, K, Z, u, num, xd, t = v
            i, n, j, k = fresh('i'), fresh('n'), fresh('j'), fresh('k')
            cc = ctx.rng(i, ZERO, nx).rng(n, ZERO, N).rng(j, ZERO, M)
            p = add(mul(n, M), j)
            for nm, a, sh in (('X', X, (nx, NM)), ('continuity', cont, (nx, N)), ('U', U, (nu, NM)), ('x', x, (nx, add(N, 1))), ('K', K, (nx, NM)),
                              ('Z', Z, (nz, NM)), ('u', u, (nu, N)), ('tc', tc, (NM,)), ('t', t, (add(N, 1),))):
                if not is_arr(a, len(sh)):
                    yield nm + ':matrix', FALSE
                    return
                yield nm + ':shape', and_(*[eq(q, r) for q, r in zip(a.shape, sh)])
            yield 'X:Runge-Kutta', eq(X.at(i, p), state(i, n, j)), cc
            end = add(sx(i, n), mul(hn(n), sum_(k, ZERO, M, mul(b_(k), sK(i, add(mul(n, M), k))))))
            yield 'continuity:Runge-Kutta', eq(cont.at(i, n), sub(end, sx(i, add(n, 1)))), ctx.rng(i, ZERO, nx).rng(n, ZERO, N)
            cp = ctx.rng(n, ZERO, N).rng(j, ZERO, M)
            yield 'tc:times', eq(tc.at(p), tp(n, j)), cp
            yield 'U:interval-input', eq(U.at(i, p), app('sym:u', i, n)), cp.rng(i, ZERO, nu)
            q = fresh('q')
            for nm, a, r, w in (('x', x, nx, add(N, 1)), ('K', K, nx, NM), ('Z', Z, nz, NM), ('u', u, nu, N)):
                yield nm + ':symbol', lift(a.sym) if a.body.op == 'app' else FALSE
                yield nm + ':named', eq(a.at(i, q), app('sym:' + nm, i, q)), ctx.rng(i, ZERO, r).rng(q, ZERO, w)
            yield 'number-of-points', eq(num, NM)
            yield 'xdot-is-K', eq(xd.at(i, q), sK(i, q)), ctx.rng(i, ZERO, nx).rng(q, ZERO, NM)
            yield 't', eq(t.at(q), T_(q)), ctx.rng(q, ZERO, add(N, 1))

        def native(d, s):
            r = evaluate(d, s, [s.X, s.eq['continuity'], s.U, s.x, s.K, s.Z, s.u, s.xdot])
            return (r[0], r[1], np.array(s.tc), r[2], r[3], r[4], r[5], r[6], s.numTotalCollocationPoints, r[7], np.array(s.t))
        return scheme_case(label, cls, kw, observe, post, native)


UNITS = [Scheme]
