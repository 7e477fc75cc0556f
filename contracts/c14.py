"""C14: interpolation on differential-quadrature grids, system trajectories."""
from .pdq import *
from .basis import new_basis
from casadi_extras.system_trajectory import SystemTrajectory

X = fn('y')


def basis(it, tau):
    """a basis on consecutive nodes of an interval (all others: by their nodes)"""
    a = asarr(it, tau)
    j = fresh('j')
    if a.ndim == 1:
        cc = it.ctx.rng(j, ZERO, a.shape[0])
        for f in (ZERO, ONE):
            if not it.ctx.decide(le(add(a.shape[0], f), add(n, 1))):
                continue
            for k in sorted(fv(a.at(j)), key=lambda v: v.id):
                if k in (j, n, N) or k.sort != 'I' or not it.ctx.decide(and_(le(ZERO, k), lt(k, N))):
                    continue
                g = eq(a.at(j), tk(k)(add(j, f)))
                if prove(g, cc):
                    it.oblige('nodes-of-the-interval', g, cc)
                    it.oblige('nodes-not-empty', le(1, a.shape[0]))
                    o = Obj(P.PolynomialBasis)
                    o.attrs['tau'] = Arr(a.shape, lambda j: tk(k)(add(j, f)))
                    o.attrs['D'] = Arr((a.shape[0],) * 2, lambda j, l: app('Dany', j, l))
                    return o
    return new_basis(it, tau)


CONTR = {**PDQ, ('new', P.PolynomialBasis): basis}
FIRST = {'both': ZERO, 'right': ZERO, 'left': ONE}


def width(cont):
    return add(mul(N, n), 1) if cont == 'both' else mul(N, n)


def in_interval(k, x, cont):
    """the interval that decides the value at x"""
    if cont == 'left':
        lo, hi = lt(T_(k), x), le(x, T_(add(k, 1)))
    else:
        lo, hi = le(T_(k), x), lt(x, T_(add(k, 1)))
    return and_(or_(eq(k, 0), lo), or_(eq(k, sub(N, 1)), hi))


def value(k, i, x, cont, data=X):
    """polynomial through the data of interval k (Lean interp_exact)"""
    f = FIRST[cont]
    cnt = add(n, 1) if cont == 'both' else n
    l = fresh('l')
    nodes = lambda j: tk(k)(add(j, f))
    return sum_(l, ZERO, cnt, mul(data(i, add(mul(k, n), l)), lag(nodes, cnt, l, x)))


def value_posts(name, v, rows, cont, ctx, data=X, scalar=False):
    if not is_arr(v, 2):
        yield name + ':two-dimensional', FALSE
        return
    yield name + ':rows', eq(v.shape[0], rows)
    yield name + ':columns', eq(v.shape[1], m)
    i, k, s = fresh('i'), fresh('k'), ZERO if scalar else fresh('s')
    cc = ctx.rng(i, ZERO, rows).rng(k, ZERO, N)
    if not scalar:
        cc = cc.rng(s, ZERO, m)
    x = app('x', s)
    yield name + ':value', eq(v.at(i, s), value(k, i, x, cont, data)), cc + [in_interval(k, x, cont)]


class Interp(Unit):
    name = 'Pdq.interpolator'
    targets = (C.Pdq.interpolator, C._PdqInterpolator.__init__, C._PdqInterpolator.__call__)
    lean = ('interp_exact',)
    assumptions = (REAL, GRID, 'interval boundaries ascend strictly')

    todo = (('case', 'left', 'vector'), ('case', 'both', 'vector'))

    def cases(self):
        for k, *a in self.todo:
            yield getattr(self, k)(*a)

    def case(self, label, qk):
        cont = 'both' if label == 'default' else label
        c = Case(label=label + ' ' + qk, ctx=pdq_ctx([le(1, r), le(1, m) if qk == 'vector' else eq(m, 1)]), contracts=CONTR)

        def run(it):
            f = it.call(it.getattr(build(it), 'interpolator'), [], {} if label == 'default' else {'continuity': cont})
            return it.call(f, [symarr('y', r, width(cont)), symarr('x', m) if qk == 'vector' else app('x', ZERO)], {})
        c.run = run
        c.post = guard(lambda it, v, ctx: value_posts('interpolation', v, r, cont, ctx, scalar=qk == 'scalar'))

        def models(rng):
            for _ in range(4):
                d = rand_grid(rng, rng.choice(['chebyshev', 'radau', None]))
                rr, mm = rng.randint(1, 3), rng.randint(1, 4) if qk == 'vector' else 1
                y = [[rng.randint(-6, 6) / 2 for _ in range((len(d['T']) - 1) * d['order'] + (cont == 'both'))] for _ in range(rr)]
                x = [rng.choice(d['T']) if rng.random() < .4 else rng.randint(-40, 40) / 5 for _ in range(mm)]
                yield grid_model(d, {'r': rr, 'm': mm}, {'y': y, 'x': x}, funs={'Dany': lambda *a: Fraction(0)},
                                 inst=dict(kind='interp', y=y, x=x, cont=label, scalar=qk == 'scalar'), y=np.array(y), x=np.array(x) if qk == 'vector' else x[0])
        c.models = models
        c.native = lambda mo: native_grid(mo.native['d']).interpolator(*([] if label == 'default' else [cont]))(mo.native['y'], mo.native['x'])
        c.tol = 1e-5
        return c

    def width_case(self, cont):
        w = var('w')
        c = Case(label='width ' + cont, ctx=pdq_ctx([le(1, r), le(1, m), le(0, w), ne(w, width(cont))]), contracts=CONTR)

        def run(it):
            f = it.call(it.getattr(build(it), 'interpolator'), [cont], {})
            return it.call(f, [symarr('y', r, w), symarr('x', m)], {})
        c.run = run

        def post(it, kind, v, ctx):
            yield 'rejected', lift(kind == 'raise' and issubclass(v.etype, ValueError))
        c.post = post

        def models(rng):
            for dw in (-1, 1, 2):
                d = rand_grid(rng, 'radau')
                ww = (len(d['T']) - 1) * d['order'] + (cont == 'both') + dw
                y = [[1.0] * ww]
                yield grid_model(d, {'r': 1, 'm': 1, 'w': ww}, {'y': y, 'x': [.5]}, inst=dict(kind='width', y=y, x=[.5], cont=cont), y=np.array(y))
        c.models = models
        c.native = lambda mo: native_grid(mo.native['d']).interpolator(cont)(mo.native['y'], np.array([.5]))
        return c

    def reject(self, bad):
        c = Case(label='continuity %r' % (bad,), ctx=pdq_ctx(), contracts=CONTR)
        c.run = lambda it: it.call(it.getattr(build(it), 'interpolator'), [bad], {})

        def post(it, kind, v, ctx):
            yield 'rejected', lift(kind == 'raise' and issubclass(v.etype, ValueError))
        c.post = post

        def models(rng):
            d = rand_grid(rng, 'radau')
            yield grid_model(d, inst=dict(kind='bad', cont=bad))
        c.models = models
        c.native = lambda mo: native_grid(mo.native['d']).interpolator(bad)
        return c


class Interp2(Interp):
    name = 'Pdq.interpolator (right, default)'
    todo = (('case', 'right', 'vector'), ('case', 'default', 'vector'), ('case', 'right', 'scalar'))


class Reject(Interp):
    name = 'Pdq.interpolator (wrong data)'
    lean = ()
    todo = (('width_case', 'both'), ('width_case', 'left'), ('width_case', 'right'), ('reject', 'none'), ('reject', ''), ('reject', None))


class Trajectory(Unit):
    name = 'SystemTrajectory'
    targets = (SystemTrajectory.__init__, SystemTrajectory.state, SystemTrajectory.algState, SystemTrajectory.input, SystemTrajectory.time.fget)
    lean = ('interp_exact',)
    assumptions = Interp.assumptions
    rows = dict(y=var('r'), z=var('rz'), u=var('ru'))

    def cases(self):
        yield self.case('matrices')
        yield self.case('vectors')
        for bad in 'yzu':
            yield self.case(bad + ' of wrong width', bad)

    def case(self, label, bad=None):
        w = var('w')
        ws = dict(y=width('both'), z=width('right'), u=width('right'))
        extra = [le(1, x) for x in self.rows.values()] + [le(1, m)]
        if label == 'vectors':
            extra += [eq(x, ONE) for x in self.rows.values()]
        if bad:
            extra += [le(0, w), ne(w, ws[bad])]
            ws[bad] = w
        c = Case(label=label, ctx=pdq_ctx(extra), contracts=CONTR)

        def run(it):
            one = lambda k: Arr((ws[k],), lambda j: fn(k)(ZERO, j)) if label == 'vectors' else symarr(k, self.rows[k], ws[k])
            s = it.call(SystemTrajectory, [one(k) for k in 'yzu'] + [build(it)], {})
            x = symarr('x', m)
            return tuple(it.call(it.getattr(s, k), [x], {}) for k in ('state', 'algState', 'input')) + (it.getattr(s, 'time'),)

        def make(it):
            return it.call(SystemTrajectory, [symarr(k, self.rows[k], ws[k]) for k in 'yzu'] + [build(it)], {})
        c.run = make if bad else run

        def post(it, v, ctx):
            yield from value_posts('state', v[0], self.rows['y'], 'both', ctx, fn('y'))
            yield from value_posts('algState', v[1], self.rows['z'], 'right', ctx, fn('z'))
            yield from value_posts('input', v[2], self.rows['u'], 'right', ctx, fn('u'))
            yield from arr_posts('time', asarr(it, v[3]), (add(N, 1),), T_, ctx)

        def post_bad(it, kind, v, ctx):
            yield 'rejected', lift(kind == 'raise' and issubclass(v.etype, (ValueError, AssertionError)))
        c.post = post_bad if bad else guard(post)

        def models(rng):
            for _ in range(3):
                d = rand_grid(rng, rng.choice(['chebyshev', 'radau', None]))
                L = (len(d['T']) - 1) * d['order']
                wd = dict(y=L + 1, z=L, u=L)
                if bad:
                    wd[bad] += rng.choice([-1, 1, 2])
                data = {}
                vs = dict(m=rng.randint(1, 3), **({'w': wd[bad]} if bad else {}))
                for k in 'yzu':
                    vs[self.rows[k].args[0]] = rr = 1 if label == 'vectors' else rng.randint(1, 2)
                    data[k] = [[rng.randint(-6, 6) / 2 for _ in range(wd[k])] for _ in range(rr)]
                x = [rng.choice(d['T']) if rng.random() < .4 else rng.randint(-40, 40) / 5 for _ in range(vs['m'])]
                yield grid_model(d, vs, dict(data, x=x), funs={'Dany': lambda *a: Fraction(0)}, inst=dict(kind='trajectory', data=data, x=x, bad=bad), data=data, x=np.array(x))
        c.models = models

        def native(mo):
            s = SystemTrajectory(*[np.array(mo.native['data'][k][0] if label == 'vectors' else mo.native['data'][k]) for k in 'yzu'], native_grid(mo.native['d']))
            if bad:
                return 0
            return s.state(mo.native['x']), s.algState(mo.native['x']), s.input(mo.native['x']), np.array(s.time)
        c.native = native
        c.tol = 1e-5
        return c


class Expand(Unit):
    name = 'Pdq.expandInput'
    targets = (C.Pdq.expandInput,)
    assumptions = Interp.assumptions

    def cases(self):
        for kind in ('MX', 'DM'):
            yield self.case(kind)
        yield self.case('MX', True)

    def case(self, kind, bad=False):
        w = var('w')
        c = Case(label=kind + ' of wrong width' * bad, ctx=pdq_ctx([le(1, r)] + ([le(0, w), ne(w, N)] if bad else [])), contracts=CONTR)
        c.run = lambda it: it.call(it.getattr(build(it), 'expandInput'), [symarr('u', r, w if bad else N, kind=kind)], {})

        def post(it, v, ctx):
            if not is_arr(v, 2):
                yield 'matrix', FALSE
                return
            yield 'rows', eq(v.shape[0], r)
            yield 'one-column-per-node-but-the-last', eq(v.shape[1], mul(N, n))
            i, k, j = fresh('i'), fresh('k'), fresh('j')
            yield 'repeated', eq(v.at(i, add(mul(k, n), j)), app('u', i, k)), ctx.rng(i, ZERO, r).rng(k, ZERO, N).rng(j, ZERO, n)

        def post_bad(it, kind, v, ctx):
            yield 'rejected', lift(kind == 'raise' and issubclass(v.etype, (ValueError, AssertionError)))
        c.post = post_bad if bad else guard(post)

        def models(rng):
            for _ in range(3):
                d = rand_grid(rng, rng.choice(['chebyshev', 'radau', None]))
                NN = len(d['T']) - 1 + (rng.choice([-1, 1, 2]) if bad else 0)
                u = [[rng.randint(-6, 6) / 2 for _ in range(NN)] for _ in range(rng.randint(1, 3))]
                yield grid_model(d, {'r': len(u), 'w': NN}, {'u': u}, funs={'Dany': lambda *a: Fraction(0)}, inst=dict(kind='expand', u=u, bad=bad), u=u)
        c.models = models
        c.native = lambda mo: np.array(cs.evalf(cs.MX(native_grid(mo.native['d']).expandInput(cs.DM(np.array(mo.native['u'])) if kind == 'DM' else cs.MX(cs.DM(np.array(mo.native['u'])))))))
        return c


UNITS = [Interp, Interp2, Expand] + parts(Reject, 2) + parts(Trajectory, 3)
