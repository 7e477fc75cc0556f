"""C13: differential-quadrature grid, derivative, integral."""
from .pdq import *


class Grid(Unit):
    name = 'Pdq.__init__'
    targets = (C.Pdq.__init__, C.Pdq.collocationPoints.fget, C.Pdq.intervalBounds.fget, C.Pdq.numIntervals.fget, C.Pdq.polyOrder.fget, C.Pdq.t0.fget, C.Pdq.tf.fget,
               C.Pdq.intervalLength)
    assumptions = (REAL, GRID, 'interval boundaries ascend strictly')

    def cases(self):
        for label, kw in (('chebyshev', dict(polynomial_type='chebyshev')), ('radau', dict(polynomial_type='radau')), ('default', {})):
            yield self.case(label, kw)

    def case(self, label, kw):
        c = Case(label=label, ctx=pdq_ctx(), contracts=PDQ)

        def run(it):
            it.grid = None
            p = build(it, kw)
            c.grid = it.grid
            return tuple(it.getattr(p, k) for k in ('collocationPoints', 'intervalBounds', 'numIntervals', 'polyOrder', 't0', 'tf')) + (it.call(it.getattr(p, 'intervalLength'), [], {}),)
        c.run = run

        def post(it, v, ctx):
            cp, b, num, order, t0, tf, L = v
            yield 'grid-kind', lift(c.grid == ('chebyshev' if label == 'default' else label))
            if not is_arr(cp, 1):
                yield 'vector', FALSE
                return
            yield 'number-of-points', eq(cp.shape[0], add(mul(N, n), 1))
            k, j = fresh('k'), fresh('j')
            cc = ctx.rng(k, ZERO, N).rng(j, ZERO, add(n, 1))
            yield 'nodes-of-every-interval', eq(cp.at(add(mul(k, n), j)), tk(k)(j)), cc
            q = fresh('q')
            yield from arr_posts('boundaries', asarr(it, b), (add(N, 1),), T_, ctx)
            yield 'numIntervals', eq(num, N)
            yield 'polyOrder', eq(order, n)
            yield 't0', eq(t0, T_(ZERO))
            yield 'tf', eq(tf, T_(N))
            yield 'length', eq(L, sub(T_(N), T_(ZERO)))
        c.post = guard(post)

        def models(rng):
            for _ in range(4):
                yield grid_model(rand_grid(rng, kw.get('polynomial_type')), inst=dict(kind='grid'))
        c.models = models

        def native(mo):
            p = native_grid(mo.native['d'])
            return p.collocationPoints, np.array(p.intervalBounds), p.numIntervals, p.polyOrder, p.t0, p.tf, p.intervalLength()
        c.native = native
        return c


Y = fn('y')           # y(component, grid point): any data is the node values of a continuous piecewise polynomial


def deriv_spec(k, j, i):
    """slope at node j of interval k of component i (Lean deriv_exact)"""
    l = fresh('l')
    return sum_(l, ZERO, add(n, 1), mul(Dk(k, j, l), Y(i, add(mul(k, n), l))))


class Linear(Unit):
    assumptions = (REAL, GRID, 'interval boundaries ascend strictly')

    def cases(self):
        for kind in self.kinds:
            yield self.case(kind)

    def models_of(self, rng, make):
        for k in range(4):
            d = rand_grid(rng, rng.choice(['chebyshev', 'radau', None]))
            rr = rng.randint(1, 3)
            y = [[rng.randint(-6, 6) / 2 for _ in range((len(d['T']) - 1) * d['order'] + 1)] for _ in range(rr)]
            yield grid_model(d, {'r': rr}, {'y': y}, inst=dict(kind=make, y=y), y=y)


class Derivative(Linear):
    name = 'Pdq.derivative'
    targets = (C.Pdq.derivative, C.Pdq.__init__)
    lean = ('deriv_exact',)
    kinds = ('MX', 'np')

    def case(self, kind):
        c = Case(label=kind, ctx=pdq_ctx([le(1, r)]), contracts=PDQ)

        def run(it):
            p = build(it)
            return it.call(it.getattr(p, 'derivative'), [symarr('y', r, add(mul(N, n), 1), kind=kind)], {})
        c.run = run

        def post(it, v, ctx):
            if not is_arr(v, 2):
                yield 'matrix', FALSE
                return
            yield 'rows', eq(v.shape[0], r)
            yield 'one-column-per-point-but-the-last', eq(v.shape[1], mul(N, n))
            k, j, i = fresh('k'), fresh('j'), fresh('i')
            cc = ctx.rng(k, ZERO, N).rng(j, ZERO, n).rng(i, ZERO, r)
            yield 'slopes', eq(v.at(i, add(mul(k, n), j)), deriv_spec(k, j, i)), cc
        c.post = guard(post)
        c.models = lambda rng: self.models_of(rng, 'derivative')
        c.native = lambda mo: np.array(cs.DM(native_grid(mo.native['d']).derivative(cs.DM(mo.native['y']))))
        return c


def quad_rule(it, A, B):
    """Lean quad_solve: A = D[:n, 1:] of an interval and B the slopes of y on it"""
    j, l, i = fresh('j'), fresh('l'), fresh('i')
    ks = []
    for s in subterms(A.at(j, l)):
        if s.op == 'app' and s.args[0] == 'T' and s.args[1] not in ks:
            ks.append(s.args[1])
    for k in ks:
        if it.ctx.decide(and_(le(ZERO, k), lt(k, N))) is not True:
            continue
        cc = it.ctx.rng(j, ZERO, n).rng(l, ZERO, n).rng(i, ZERO, B.shape[1])
        if prove_eq(A.shape[0], n, it.ctx) and prove_eq(A.at(j, l), Dk(k, j, add(l, 1)), cc) and prove_eq(B.at(j, i), deriv_spec(k, j, i), cc):
            return Arr((n, B.shape[1]), lambda l, i: sub(Y(i, add(mul(k, n), l, 1)), Y(i, mul(k, n))))
    return None


class Telescope:
    """sum of f(v + 1) over v = lo .. hi - 1 is the sum of f(v), plus f(hi), minus f(lo)"""
    name = 'shift of the summation index'

    def __call__(self, atom, ctx):
        if atom.op != 'sum':
            return None
        v, lo, hi, body = atom.args
        f = simp(subst(body, {v: sub(v, 1)}), Ctx())
        if len(show(f)) < len(show(body)) and ctx.decide(le(lo, hi)):
            return add(sum_(v, lo, hi, f), subst(f, {v: hi}), neg(subst(f, {v: lo})))
        return None


class Integral(Linear):
    name = 'Pdq.integral'
    targets = (C.Pdq.integral, C.Pdq.__init__)
    lean = ('quad_solve', 'dmat_row')
    kinds = ('MX',)

    def case(self, kind):
        ctx = pdq_ctx([le(1, r)])
        ctx.lemmas = [Telescope()]
        c = Case(label=kind, ctx=ctx, contracts=PDQ, solve_rules=[quad_rule])

        def run(it):
            p = build(it)
            k = lambda s: idiv(s, n)
            dy = Arr((r, mul(N, n)), lambda i, s: deriv_spec(k(s), imod(s, n), i), kind=kind)
            return it.call(it.getattr(p, 'integral'), [dy], {})
        c.run = run

        def post(it, v, ctx):
            if not is_arr(v, 2):
                yield 'matrix', FALSE
                return
            yield 'rows', eq(v.shape[0], r)
            yield 'one-column-per-point-but-the-first', eq(v.shape[1], mul(N, n))
            k, j, i = fresh('k'), fresh('j'), fresh('i')
            cc = ctx.rng(k, ZERO, N).rng(j, ZERO, n).rng(i, ZERO, r)
            yield 'values-minus-initial-value', eq(v.at(i, add(mul(k, n), j)), sub(Y(i, add(mul(k, n), j, 1)), Y(i, ZERO))), cc
        c.post = guard(post)
        c.models = lambda rng: self.models_of(rng, 'integral')

        def native(mo):
            p = native_grid(mo.native['d'])
            dy = p.derivative(cs.DM(mo.native['y']))
            return np.array(cs.evalf(p.integral(cs.MX(dy))))
        c.native = native
        c.tol = 1e-6
        return c


UNITS = [Grid, Derivative, Integral]
