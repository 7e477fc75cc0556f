"""C11: the collocation integrator."""
from .scheme import *
from .scheme import structure
from pyvc import models_cs
from pyvc.prove import prove
from oracles import c11

NEWTON = 'casadi.rootfinder: rf(w0, a) returns w with f(w, a) = 0'


# ------------------------------------------------------------------ contract of the scheme (C08, C09, C10)
def new_scheme(tdp):
    def new(it, dae, t, order, method='legendre', parallelization='serial', tdp_fun=None, expand=True, repeat_param=False, options={}):
        it.oblige('order-positive', le(1, lift(order)))
        it.oblige('known-method', lift(method in ('radau', 'legendre')))
        it.oblige('scheme-of-the-model', lift(isinstance(dae, Obj) and issubclass(dae.cls, DM_.Dae)))
        it.oblige('scheme-order', eq(lift(order), M))
        a = asarr(it, t)
        q = fresh('q')
        it.oblige('scheme-times', and_(eq(a.shape[0], add(N, 1)), forall(q, ZERO, add(N, 1), eq(a.at(q), T_(q)))))
        it.oblige('time-dependent-parameter-passed', lift((tdp_fun is not None) == tdp))
        it.method = method
        if repeat_param is not False:
            raise OutOfReach('repeated parameters in the integrator')
        NM = mul(N, M)
        sym = {}
        for nm, r, w in (('x', nx, add(N, 1)), ('K', nx, NM), ('Z', nz, NM), ('u', nu, N), ('P', np_, ONE)):
            s = Arr((r, w), lambda i, j, nm=nm: app('sym:' + nm, i, j), kind='MX')
            s.sym = True
            sym[nm] = s
        cont = Arr((nx, N), lambda i, n: end_defect(i, n), kind='MX')
        parts = dict(collocation=matrix(add(nx, nz), lambda i, n, j: residual('dae', i, n, j, False, tdp)), continuity=cont,
                    param=Arr((np_, ZERO), lambda i, j: R(0), kind='MX'))
        at = dict(x=sym['x'], K=sym['K'], xdot=sym['K'], Z=sym['Z'], u=sym['u'], p=sym['P'],
                  X=matrix(nx, state), quad=matrix(nq, lambda i, n, j: residual('quad', i, n, j, False, tdp)),
                  q=Arr((nq, add(N, 1)), lambda i, n: quad_end(i, n, tdp), kind='MX'),
                  Q=matrix(nq, lambda i, n, j: quad_at(i, n, j, tdp)),
                  tc=Arr((NM,), lambda p: tp(idiv(p, M), imod(p, M))), t=a, eq=structure(it, Dct(parts)), numTotalCollocationPoints=NM)

        def combine(it, what):
            it.oblige('combinable', lift(all(w in ('K', 'x', 'Z', 'U', 'u', 'p', 'eq', 'q') for w in what)))
            return structure(it, Dct({w: at[w] for w in what}))
        return Opq('scheme', dict(at, combine=Model_(combine)))
    return new


def matrix(rows, f):
    """interval-major matrix of f(row, interval, point)"""
    return Arr((rows, mul(N, M)), lambda i, p: f(i, idiv(p, M), imod(p, M)), kind='MX')


def end_defect(i, n):
    k = fresh('k')
    return sub(add(sx(i, n), mul(hn(n), sum_(k, ZERO, M, mul(b_(k), sK(i, add(mul(n, M), k)))))), sx(i, add(n, 1)))


def quad_end(i, n, tdp):
    m, k = fresh('m'), fresh('k')
    return sum_(m, ZERO, n, mul(hn(m), sum_(k, ZERO, M, mul(b_(k), residual('quad', i, m, k, False, tdp)))))


def quad_at(i, n, j, tdp):
    k = fresh('k')
    return add(quad_end(i, n, tdp), mul(hn(n), sum_(k, ZERO, M, mul(A_(j, k), residual('quad', i, n, k, False, tdp)))))


# ------------------------------------------------------------------ casadi functions of structured arguments
def parts_of(it, v):
    """components of a stacked value"""
    if isinstance(v, Opq) and v.name == 'struct_MX':
        return list(v.attrs['parts'].values())
    if isinstance(v, Opq) and v.name == 'stack':
        return list(v.attrs['items'])
    return [csarr(it, v)]


def vertcat(it, *args):
    if any(isinstance(a, Opq) for a in args):
        return Opq('stack', {'items': [p for a in args for p in parts_of(it, a)]})
    return models_cs.vertcat(it, *args)


def new_function(it, name, ins, outs, *names):
    """casadi.Function of symbolic inputs"""
    for a in ins:
        it.oblige('function-inputs-symbolic', lift(all(p.sym for p in parts_of(it, a))))
    return Opq('function of expressions', dict(ins=list(ins), outs=list(outs)))


def rootfinder(it, name, solver, f, *opts):
    it.oblige('rootfinder-function', lift(isinstance(f, Opq) and f.name == 'function of expressions' and len(f.attrs['outs']) >= 1))
    ins, outs = f.attrs['ins'], f.attrs['outs']

    def call(it, *args):
        it.oblige('rootfinder-arguments', lift(len(args) == len(ins)))
        m = {}
        unknown = parts_of(it, ins[0])
        guess = parts_of(it, args[0])
        it.oblige('initial-guess-layout', and_(lift(len(guess) == len(unknown)), *[eq(x, y) for a, b in zip(guess, unknown) for x, y in zip(a.shape, b.shape)]))
        sol = []
        for s in unknown:
            nm = s.body.args[0]
            r = Arr(s.shape, lambda i, j, nm=nm: app('sol:' + nm[4:], i, j), kind='MX')
            m[nm] = r
            sol.append(r)
        for s, a in zip(ins[1:], args[1:]):
            for p, q in zip(parts_of(it, s), parts_of(it, a)):
                it.oblige('function-argument-shape', and_(*[eq(x, y) for x, y in zip(p.shape, q.shape)]))
                m[p.body.args[0]] = q
        solved = []
        for o in outs[:1]:
            for e in parts_of(it, o):
                i, j = fresh('i'), fresh('j')
                body = models_cs.subst_sym(e.at(i, j), m)
                solved.append(Arr(e.shape, lambda p, q, body=body, i=i, j=j: subst(body, {i: p, j: q}), kind='MX'))
        n_eq = sum_sizes(solved)
        it.oblige('as-many-equations-as-unknowns', eq(n_eq, sum_sizes(unknown)))
        it.solved.append(solved)
        v = ins[0]
        return Flat(Dct(zip(v.attrs['parts'], sol))) if isinstance(v, Opq) else sol[0]
    return Opq('rootfinder', {'__call__': Model_(call)})


def sum_sizes(l):
    r = ZERO
    for a in l:
        r = add(r, mul(*a.shape))
    return r


def function_init(it, self, name, ins, outs, in_names=None, out_names=None, *opts):
    self.attrs['fun'] = (list(ins), list(outs), list(in_names), list(out_names))
    for a in ins:
        it.oblige('function-inputs-symbolic', lift(all(p.sym for p in parts_of(it, a))))
    free = {p.body.args[0] for a in ins for p in parts_of(it, a) if p.body.op == 'app'}
    used = set()
    for o in outs:
        for p in parts_of(it, o):
            used |= {f for f in ufs(p.body) if isinstance(f, str) and f.startswith('sym:')}
    it.oblige('no-free-variables', lift(used <= free))


TABLES11 = [{cs.vertcat: vertcat, cs.Function: new_function, cs.rootfinder: rootfinder, ('super', cs.Function, '__init__'): function_init}] + TABLES
for f_ in TABLES11[0].values():
    f_.always = True
INS = ['x0', 'z0', 'u', 'p']
OUTS = ['xf', 'zf', 'qf', 'X', 'Z', 'Q', 'x', 'K', 'tc']


def sol(t):
    """the value of an expression of the scheme at the solution"""
    m = {'sym:' + k: Arr((0, 0), lambda i, j, k=k: app('sol:' + k, i, j)) for k in ('x', 'K', 'Z')}
    m['sym:P'] = Arr((0, 0), lambda i, j: app('sym:model.p', i, j))
    return models_cs.subst_sym(t, m)


class Integrator(Unit):
    name = 'CollocationIntegrator'
    targets = (C.CollocationIntegrator.__init__, C.collocationIntegrator)
    assumptions = (REAL, NEWTON, 'casadi matrix functions', 'casadi.Function evaluates its expressions')

    def cases(self):
        for label, cls, tdp, method in (('implicit', DM_.ImplicitDae, False, None), ('semi-explicit, radau', DM_.SemiExplicitDae, False, 'radau'),
                                        ('time-dependent parameter', DM_.ImplicitDae, True, 'legendre')):
            yield self.case(label, cls, tdp, method)

    def case(self, label, cls, tdp, method):
        con = {k: v for k, v in SCHEME.items()}
        con[('new', C.CollocationScheme)] = new_scheme(tdp)
        c = Case(label=label, ctx=ctx0([] if tdp else [eq(ntdp, 0)]), contracts=con, tables=TABLES11)

        def run(it):
            it.solved = []
            it.method = None
            kw = dict(tdp_fun=Model_(tdp_model)) if tdp else {}
            if method:
                kw['method'] = method
            f = it.call(C.collocationIntegrator, ['f', model_object(cls), symarr('T', add(N, 1)), M], kw)
            ins, outs, inn, outn = f.attrs['fun']
            c.solved = it.solved
            c.method = it.method
            return [[csarr(it, a) for a in ins], [csarr(it, o) for o in outs], inn, outn]
        c.run = run

        def post(it, v, ctx):
            ins, outs, inn, outn = v
            yield 'method', lift(c.method == (method or 'legendre'))
            yield 'input-names', lift(inn == INS)
            yield 'output-names', lift(outn == OUTS)
            if inn != INS or outn != OUTS:
                return
            for nm, a, s, n in zip(INS, ins, ('sym:x0', 'sym:model.z', 'sym:u', 'sym:model.p'), ((nx, ONE), (nz, ONE), (nu, N), (np_, ONE))):
                yield 'input-' + nm, lift(a.sym and a.body.op == 'app' and a.body.args[0] == s)
                yield 'input-%s-shape' % nm, and_(*[eq(x, y) for x, y in zip(a.shape, n)])
            o = dict(zip(outn, outs))
            NM = mul(N, M)
            i, n, j, q = fresh('i'), fresh('n'), fresh('j'), fresh('q')
            cn = lambda r: ctx.rng(i, ZERO, r).rng(n, ZERO, N).rng(j, ZERO, M)
            p = add(mul(n, M), j)
            for nm, sh in (('xf', (nx, N)), ('qf', (nq, ONE)), ('X', (nx, NM)), ('Z', (nz, NM)), ('Q', (nq, NM)), ('x', (nx, add(N, 1))), ('K', (nx, NM))):
                yield nm + ':shape', and_(*[eq(x, y) for x, y in zip(o[nm].shape, sh)])
            tc = o['tc']
            yield 'tc:shape', and_(eq(tc.shape[0], NM), eq(tc.shape[1], ONE))
            yield 'x:solution', eq(o['x'].at(i, q), app('sol:x', i, q)), ctx.rng(i, ZERO, nx).rng(q, ZERO, add(N, 1))
            yield 'K:solution', eq(o['K'].at(i, q), app('sol:K', i, q)), ctx.rng(i, ZERO, nx).rng(q, ZERO, NM)
            yield 'Z:solution', eq(o['Z'].at(i, q), app('sol:Z', i, q)), ctx.rng(i, ZERO, nz).rng(q, ZERO, NM)
            yield 'xf:interval-ends', eq(o['xf'].at(i, n), app('sol:x', i, add(n, 1))), ctx.rng(i, ZERO, nx).rng(n, ZERO, N)
            yield 'X:integrated-states', eq(o['X'].at(i, p), sol(state(i, n, j))), cn(nx)
            yield 'Q:quadratures', eq(o['Q'].at(i, p), sol(quad_at(i, n, j, tdp))), cn(nq)
            yield 'qf:final-quadrature', eq(o['qf'].at(i, ZERO), sol(quad_end(i, N, tdp))), ctx.rng(i, ZERO, nq)
            yield 'tc:times', eq(tc.at(p, ZERO), tp(n, j)), ctx.rng(n, ZERO, N).rng(j, ZERO, M)
            # the equations the solution satisfies
            yield 'one-system-solved', lift(len(c.solved) == 1)
            eqs = [('start-state', nx, ONE, lambda i, q: sub(app('sol:x', i, ZERO), app('sym:x0', i, ZERO))),
                   ('collocation-equations', add(nx, nz), NM, lambda i, q: sol(residual('dae', i, idiv(q, M), imod(q, M), False, tdp))),
                   ('continuity-equations', nx, N, lambda i, q: sol(end_defect(i, q)))]
            for lab, r, w, f in eqs:
                best = None
                for a in (c.solved[0] if c.solved else []):
                    cc = ctx.rng(i, ZERO, r).rng(q, ZERO, w)
                    sh = and_(*[eq(x, y) for x, y in zip(a.shape, (r, w))])
                    g = eq(a.at(i, q), f(i, q))
                    best = best or (sh, g, cc)
                    try:
                        if prove(sh, ctx) and prove(g, cc):
                            best = (sh, g, cc)
                            break
                    except RecursionError:
                        pass
                if best is None:
                    yield lab, FALSE
                else:
                    yield lab + ':shape', best[0]
                    yield lab, best[1], best[2]
        c.post = guard(post)

        def models(rng):
            for _ in range(3):
                d = c11.rand_problem(rng)
                d['semi'] = cls is DM_.SemiExplicitDae
                d['kw'] = dict(method=method) if method else {}
                d['ntdp'] = 0
                d['integrate'] = False
                d['tdpint'] = False      # the summary's schedule is the smooth one
                if tdp:
                    d['kw']['tdp'], d['ntdp'] = True, 2
                r = c11.run(d)[1]
                s = c11.solved(d, r)
                m = model_of(dict(s), inst=d)
                for k in ('x', 'K', 'Z'):
                    m.funs['sol:' + k] = m.funs['sym:' + k]
                m.funs['sym:model.p'] = m.funs['sym:P']
                m.native['r'] = r
                yield m
        c.models = models
        c.native = lambda m: [[m.native['r'][k] for k in OUTS if k != 'zf'], INS, OUTS]
        c.observe_sym = lambda v: [[a for k, a in zip(OUTS, v[1]) if k != 'zf'], v[2], v[3]]
        c.tol = 1e-6
        return c


class Combine(Unit):
    name = 'CollocationScheme.combine'
    targets = (C.CollocationScheme.combine,)
    assumptions = ('casadi matrix functions',)

    def cases(self):
        for what in (['x', 'K', 'Z'], ['Z', 'u', 'p', 'q', 'K', 'U'], ['eq'], [], ['x', 'X'], ['nothing']):
            yield self.case(what)

    def case(self, what):
        con = dict(SCHEME)
        con[S3.entry] = lambda it, n, **kw: Opq('entry', {'name': n, 'expr': kw['expr']})
        ok = all(w in ('K', 'x', 'Z', 'U', 'u', 'p', 'eq', 'q') for w in what)
        c = Case(label=','.join(what) or 'nothing', ctx=ctx0([eq(ntdp, 0)]), contracts=con, tables=TABLES)

        def run(it):
            s = build(it, DM_.ImplicitDae, {})
            st = it.call(it.getattr(s, 'combine'), [Lst(what)], {})
            return [list(st.attrs['parts']), list(st.attrs['parts'].values()), [it.getattr(s, w) for w in what]]
        c.run = run

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'rejects-only-unknown', lift(not ok)
                return
            yield 'accepts-only-known', lift(ok)
            yield 'entries', lift(v[0] == what)
            yield 'expressions', lift(all(a is b for a, b in zip(v[1], v[2])))
        c.post = post
        c.models = lambda rng: [model_of(rand_inst(rng, DM_.ImplicitDae, {}), inst=dict(c11.rand_problem(rng))) for _ in range(2)]

        def native(m):
            d = m.native['d']
            s = build_native(d)[1]
            st = s.combine(what)
            return [list(st.keys()), evaluate(d, s, [st[w] for w in what if w != 'eq'])]
        c.native = native
        c.observe_sym = lambda v: [v[0], [a for w, a in zip(what, v[1]) if w != 'eq']]
        return c


class Integrate(Unit):
    name = 'CollocationIntegrator.integrate'
    targets = (C.CollocationIntegrator.integrate,)
    assumptions = ('keyword arguments',)

    def cases(self):
        con = dict(SCHEME)
        con[('new', C.CollocationScheme)] = new_scheme(False)
        base = con[('new', C.CollocationScheme)]

        def scheme(it, *a, **k):
            s = base(it, *a, **k)
            s.attrs['piecewisePolyX'] = Model_(lambda it, x, K: Opq('trajectory', {'x': x, 'K': K}))
            return s
        con[('new', C.CollocationScheme)] = scheme
        out = lambda: Dct({k: Arr((1, 1), lambda i, j, k=k: app('out:' + k, i, j), kind='DM') for k in OUTS})

        def call(it, self, *a, **kw):
            it.calls.append((a, kw))
            return out()
        con[cs.Function.__call__] = call
        c = Case(label='keywords', ctx=ctx0([eq(ntdp, 0)]), contracts=con, tables=TABLES11)

        def run(it):
            it.solved, it.calls = [], []
            f = it.call(C.CollocationIntegrator, ['f', model_object(DM_.ImplicitDae), symarr('T', add(N, 1)), M], {})
            r = it.call(it.getattr(f, 'integrate'), [], dict(x0=app('x0v'), u=app('uv')))
            c.calls = it.calls
            return r
        c.run = run

        def post(it, v, ctx):
            yield 'calls-itself-once', lift(len(c.calls) == 1 and c.calls[0][0] == () and c.calls[0][1] == dict(x0=app('x0v'), u=app('uv')))
            yield 'outputs-kept', lift(isinstance(v, dict) and all(k in v and isinstance(v[k], Arr) and v[k].body.args[0] == 'out:' + k for k in OUTS))
            t = v.get('x_traj') if isinstance(v, dict) else None
            yield 'trajectory-of-the-solution', lift(isinstance(t, Opq) and t.name == 'trajectory' and t.attrs['x'] is v.get('x') and t.attrs['K'] is v.get('K'))
        c.post = guard(post)
        c.models = lambda rng: [model_of(dict(rand_inst(rng, DM_.ImplicitDae, {})), inst=dict(c11.rand_problem(rng), integrate=True)) for _ in range(2)]
        yield c


UNITS = [Integrator, Combine, Integrate]
