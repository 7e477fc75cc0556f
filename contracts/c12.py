"""C12: the state trajectory of a scheme."""
from .scheme import *
from .basis import BASIS
from casadi_extras.collocation import piecewise_poly as PP, polynomial as P

CPOS = 'collocation points are distinct and not 0 (casadi.collocation_points)'


def values(name):
    return Arr((nx, add(N, 1) if name == 'vx' else mul(N, M)), lambda i, j: app(name, i, j), kind='DM')


def vstate(i, n, j):
    k = fresh('k')
    return add(app('vx', i, n), mul(hn(n), sum_(k, ZERO, M, mul(A_(j, k), app('vK', i, add(mul(n, M), k))))))


def node(r):
    """nodes 0, c_0, .., c_(M-1)"""
    return ite(eq(r, 0), R(0), c_(sub(r, 1)))


def new_piecewise(it, t, coeff, basis):
    """C05: the piecewise polynomial with these boundaries, node values and basis"""
    return Opq('piecewise', {'t': t, 'coeff': coeff, 'basis': basis})


def ctx12():
    c = ctx0([eq(ntdp, 0)])
    return Ctx(list(c.facts) + [forall(var('q!'), ZERO, M, ne(c_(var('q!')), R(0)))], {'T': dict(n=add(N, 1), inj=True, sorted=True), 'c': dict(n=M, inj=True)})


class Trajectory(Unit):
    name = 'CollocationScheme.piecewisePolyX'
    targets = (C.CollocationScheme.piecewisePolyX, C.CollocationScheme.evalX)
    lean = ('traj_start', 'traj_node', 'traj_slope', 'traj_end')
    assumptions = (REAL, CPOS, 'casadi matrix functions', 'interval boundaries ascend strictly')

    def cases(self):
        for label, cls, kw in CONFIGS[:4]:
            if not kw.get('tdp'):
                yield self.case(label, cls, kw)
        yield self.evalx()

    def case(self, label, cls, kw):
        c = Case(label=label, ctx=ctx12(), contracts={**SCHEME, **BASIS, ('new', PP.PiecewisePoly): new_piecewise}, tables=TABLES)

        def run(it):
            s = build(it, cls, kw)
            p = it.call(it.getattr(s, 'piecewisePolyX'), [values('vx'), values('vK')], {})
            if not (isinstance(p, Opq) and p.name == 'piecewise'):
                raise OutOfReach('trajectory is not a piecewise polynomial')
            b = p.attrs['basis']
            return p.attrs['t'], p.attrs['coeff'], b.attrs['tau'] if isinstance(b, Obj) else None
        c.run = run

        def post(it, v, ctx):
            t, co, tau = v
            yield from arr_posts('boundaries', asarr(it, t), (add(N, 1),), T_, ctx)
            yield from arr_posts('nodes', tau, (add(M, 1),), node, ctx)
            n = fresh('n')
            cn = ctx.rng(n, ZERO, N)
            yield 'one-piece-per-interval', eq(length(it, co), N)
            a = asarr(it, elem(it, co, n, cn))
            if a.ndim != 2:
                yield 'node-values', FALSE
                return
            yield 'node-values-shape', and_(eq(a.shape[0], nx), eq(a.shape[1], add(M, 1))), cn
            i, r = fresh('i'), fresh('r')
            yield 'starts-at-boundary-state', eq(a.at(i, ZERO), app('vx', i, n)), cn.rng(i, ZERO, nx)
            yield 'passes-through-integrated-states', eq(a.at(i, add(r, 1)), vstate(i, n, r)), cn.rng(i, ZERO, nx).rng(r, ZERO, M)
        c.post = guard(post)

        def models(rng):
            for _ in range(3):
                d = rand_inst(rng, cls, kw)
                m = model_of(d, inst=dict(d, kind='trajectory'))
                m.funs['vx'], m.funs['vK'] = arrfun('vx', d['x']), arrfun('vK', d['K'])
                yield m
        c.models = models

        def native(m):
            d = m.native['d']
            s = build_native(d)[1]
            got = {}

            class Spy(PP.PiecewisePoly):
                def __init__(self, t, coeff, basis):
                    got.update(t=t, coeff=coeff, basis=basis)
            old = C.PiecewisePoly
            C.PiecewisePoly = Spy
            try:
                s.piecewisePolyX(cs.DM(np.array(d['x'])), cs.DM(np.array(d['K'])))
            finally:
                C.PiecewisePoly = old
            return np.array(got['t']), [np.array(a) for a in got['coeff']], got['basis'].tau
        c.native = native
        return c

    def evalx(self):
        c = Case(label='evalX', ctx=ctx12(), contracts=SCHEME, tables=TABLES)
        c.run = lambda it: it.call(it.getattr(build(it, DM_.ImplicitDae, {}), 'evalX'), [values('vx'), values('vK')], {})

        def post(it, v, ctx):
            if not is_arr(v, 2):
                yield 'matrix', FALSE
                return
            i, n, j = fresh('i'), fresh('n'), fresh('j')
            yield 'numeric', lift(v.kind == 'DM')
            yield 'shape', and_(eq(v.shape[0], nx), eq(v.shape[1], mul(N, M)))
            yield 'integrated-states', eq(v.at(i, add(mul(n, M), j)), vstate(i, n, j)), ctx.rng(i, ZERO, nx).rng(n, ZERO, N).rng(j, ZERO, M)
        c.post = guard(post)

        def models(rng):
            for _ in range(3):
                d = rand_inst(rng, DM_.ImplicitDae, {})
                m = model_of(d, inst=dict(d, kind='evalX'))
                m.funs['vx'], m.funs['vK'] = arrfun('vx', d['x']), arrfun('vK', d['K'])
                yield m
        c.models = models
        c.native = lambda m: build_native(m.native['d'])[1].evalX(cs.DM(np.array(m.native['d']['x'])), cs.DM(np.array(m.native['d']['K'])))
        return c


UNITS = [Trajectory]
