"""C16: conversions, functions and parallel connection of DAE models."""
from .dae import *
from pyvc.models_cs import csarr
from casadi_extras import structure3 as S3
import casadi_extras as ce
from casadi import MX as MX_
from pyvc.interp import is_text
from .structs import seq, veq, rec, case, direct, returns

ASSUME = ('a casadi expression is known by its elements as functions of the symbols (models_cs)',)


def given(keys, cls, sfx=''):
    return {k: quantity(k + sfx, valid=TRUE) for k in keys}


def good(keys, cls, sfx=''):
    """well-formed quantities with names k + sfx"""
    return quantity_ctx([k + sfx for k in keys], [subst_keys(well_formed(keys, cls), keys, sfx)] + [pure(k + sfx) for k in keys if k in PURE])


def subst_keys(t, keys, sfx):
    m = {}
    for k in keys:
        m[rows(k)], m[cols(k)] = rows(k + sfx), cols(k + sfx)
    t = subst(t, m)
    from pyvc.prove import replace
    return replace(t, {pure(k): pure(k + sfx) for k in keys})


def same_arr(a, b, name, ctx):
    yield from arr_posts(name, a, b.shape, b.at, ctx)


class MakeImplicit(Unit):
    name = 'makeImplicit'
    targets = (D.SemiExplicitDae.makeImplicit, D.ImplicitDae.makeImplicit, D.SemiExplicitDae.__init__, D.ImplicitDae.__init__)
    assumptions = ASSUME

    def cases(self):
        for keys in (('x', 'ode'), ('x', 'ode', 'z', 'alg'), ('x', 'ode', 'u', 'p', 't', 'tdp', 'quad'), ('x', 'ode', 'z', 'alg', 'u', 'p', 't', 'quad', 'tdp')):
            yield self.case(keys)
        for keys in (('x', 'xdot', 'dae'), ('x', 'xdot', 'dae', 'z', 'u', 'p', 't', 'quad', 'tdp')):
            yield self.same(keys)

    def case(self, keys):
        c = Case(label='semi-explicit ' + ','.join(keys), ctx=good(keys, D.SemiExplicitDae))
        qs = given(keys, D.SemiExplicitDae)
        names = ('xdot', 'dae') + MODEL

        def run(it):
            o = it.call(D.SemiExplicitDae, [], dict(qs))
            c.before = {k: it.getattr(o, k) for k in MODEL}
            r = it.call(it.getattr(o, 'makeImplicit'), [], {})
            c.is_implicit = isinstance(r, Obj) and issubclass(r.cls, D.ImplicitDae)
            return tuple(it.getattr(r, k) for k in names)
        c.run = run

        def post(it, v, ctx):
            r = dict(zip(names, v))
            yield 'implicit', lift(c.is_implicit)
            for k in MODEL:
                yield k + '-kept', lift(r[k] is c.before[k])
            if not is_arr(r['xdot'], 2) or not is_arr(r['dae'], 2):
                yield 'matrices', FALSE
                return
            nx, nz = rows('x'), rows('z') if 'z' in keys else ZERO
            yield 'xdot-symbol', and_(lift(bool(r['xdot'].sym)), eq(r['xdot'].shape[0], nx), eq(r['xdot'].shape[1], 1))
            yield 'residual-size', and_(eq(r['dae'].shape[0], add(nx, nz)), eq(r['dae'].shape[1], 1))
            i = fresh('i')
            yield 'differential-part', eq(r['dae'].at(i, ZERO), sub(r['xdot'].at(i, ZERO), app('q:ode', i, ZERO))), ctx.rng(i, ZERO, nx)
            if 'alg' in keys:
                yield 'algebraic-part', eq(r['dae'].at(add(nx, i), ZERO), app('q:alg', i, ZERO)), ctx.rng(i, ZERO, nz)
        c.post = guard(post)

        def models(rng):
            for _ in range(4):
                q = rand_quantities(rng, keys, D.SemiExplicitDae, True)
                yield dae_model(q, dict(kind='implicit', cls='SemiExplicitDae', q={k: [*a[:2], True if k in PURE else False] for k, a in q.items()}))
        c.models = models
        return c

    def same(self, keys):
        c = Case(label='implicit ' + ','.join(keys), ctx=good(keys, D.ImplicitDae))

        def run(it):
            o = it.call(D.ImplicitDae, [], given(keys, D.ImplicitDae))
            return it.call(it.getattr(o, 'makeImplicit'), [], {}) is o
        c.run = run
        c.post = guard(lambda it, v, ctx: [('unchanged', lift(v is True))])

        def models(rng):
            q = rand_quantities(rng, keys, D.ImplicitDae, True)
            yield dae_model(q, dict(kind='implicit', cls='ImplicitDae', q={k: [*a[:2], True if k in PURE else False] for k, a in q.items()}))
        c.models = models
        return c


def dae_model(q, inst, sfx=''):
    vs = {}
    for k, a in q.items():
        vs['r:' + k + sfx], vs['c:' + k + sfx] = a[:2]
    return mkmodel(vs, funs={'pure:' + k + sfx: lambda: True for k in q}, inst=inst)


class CreateFunction(Unit):
    name = 'Dae.createFunction'
    targets = (D.Dae.createFunction,)
    assumptions = ASSUME + ('casadi.Function(name, ins, outs, names_in, names_out) computes outs from ins in the given order under the given names',)
    FULL = {D.SemiExplicitDae: ('x', 'ode', 'z', 'alg', 'u', 'p', 't', 'quad', 'tdp'), D.ImplicitDae: ('x', 'xdot', 'dae', 'z', 'u', 'p', 't', 'quad', 'tdp'), D.Dae: MODEL}

    def cases(self):
        for cls, keys in self.FULL.items():
            ins = [k for k in keys if k in PURE or k == 'xdot']
            outs = [k for k in keys if k not in ins]
            for a in ins:
                for b in outs[:2]:
                    yield self.case(cls, keys, [a], [b])
            yield self.case(cls, keys, ins, outs)
            yield self.case(cls, keys, ins[::-1], outs[::-1])
            yield self.case(cls, keys, ['t', 'x', 'u'], ['quad'])

    def case(self, cls, keys, ins, outs):
        def new_function(it, *a, **k):
            return Opq('Function', dict(args=a, kw=k))
        c = Case(label='%s %s -> %s' % (cls.__name__, ins, outs), ctx=good(keys, cls), tables=[{cs.Function: new_function}])
        qs = given(keys, cls)

        def run(it):
            o = it.call(cls, [], dict(qs))
            return it.call(it.getattr(o, 'createFunction'), ['f', list(ins), list(outs)], {})
        c.run = run

        def post(it, v, ctx):
            ok = isinstance(v, Opq) and v.name == 'Function' and len(v.attrs['args']) >= 5
            yield 'function', lift(ok)
            if not ok:
                return
            a = v.attrs['args']
            yield 'name', lift(a[0] == 'f')
            yield 'inputs', lift(len(a[1]) == len(ins) and all(x is qs[k] for x, k in zip(a[1], ins)))
            yield 'outputs', lift(len(a[2]) == len(outs) and all(x is qs[k] for x, k in zip(a[2], outs)))
            yield 'input-names', lift(list(a[3]) == list(ins))
            yield 'output-names', lift(list(a[4]) == list(outs))
        c.post = guard(post)

        def models(rng):
            q = rand_quantities(rng, keys, cls, True)
            yield dae_model(q, dict(kind='function', cls=cls.__name__, q={k: [*a[:2], True if k in PURE or k == 'xdot' else False] for k, a in q.items()}, ins=ins, outs=outs))
        c.models = models
        return c


class CreateFunctionN(Unit):
    name = 'Dae.createFunction (any lists of names)'
    targets = (D.Dae.createFunction,) + tuple(f for f in [getattr(D.Dae, '_get', None)] if f is not None)
    assumptions = CreateFunction.assumptions

    def cases(self):
        get = getattr(D.Dae, '_get', None)
        n, m = var('n'), var('m')
        names = lambda tag, n: seq(n, lambda i: rec(tag, i, cls=str))
        models = lambda rng: [mkmodel({'n': rng.randint(0, 3), 'm': rng.randint(0, 3)})]
        new_function = lambda it, *a, **k: rec('Function', *a) if not k else oor()
        new_function.always = True

        def oor():
            raise OutOfReach('casadi.Function')

        def run(it):
            if get is None:
                oor()
            return direct(it, D.Dae.createFunction, [rec('model', cls=D.Dae, _get=lambda it, s: Model_(lambda it, k: rec('quantity', k))), rec('the name', cls=str), names('in', n), names('out', m)])
        of = lambda l: Lst([Seg(s.n, s.var, [rec('quantity', s.elems[0])]) for s in l])
        yield case('any lists', run, returns(rec('Function', rec('the name'), of(names('in', n)), of(names('out', m)), names('in', n), names('out', m))), [le(0, n), le(0, m)], models, {}, [{cs.Function: new_function}])
        if get is None:
            return
        for cls, keys in CreateFunction.FULL.items():
            qs = given(keys, cls)

            def run(it, cls=cls, qs=qs):
                o = it.call(cls, [], dict(qs))
                return tuple(it.call(get, [o, k], {}) for k in qs)

            def post(it, kind, v, ctx, qs=qs):
                if kind == 'raise':
                    yield 'does-not-raise', FALSE
                    return
                for k, x in zip(qs, v):
                    yield 'quantity ' + k, lift(x is qs[k])
            c = case('quantities of ' + cls.__name__, run, post, ctx=good(keys, cls), models=lambda rng, keys=keys, cls=cls: [dae_model(rand_quantities(rng, keys, cls, True), None)])
            yield c


def entry_contract(it, *a, **kw):
    """C24"""
    if len(a) != 1 or set(kw) != {'expr'} or not isinstance(a[0], str):
        raise OutOfReach('entry')
    return Opq('entry', {'name': a[0], 'expr': csarr(it, kw['expr'])})


def struct_contract(it, entries, order=None):
    """C21: the column of the (column-major) elements of the expressions, in order"""
    l = list(entries)
    if order is not None or not all(isinstance(e, Opq) and e.name == 'entry' for e in l):
        raise OutOfReach('struct_MX')
    it.oblige('distinct-names', lift(len({e.attrs['name'] for e in l}) == len(l)))
    es = [e.attrs['expr'] for e in l]
    offs = [ZERO]
    for e in es:
        offs.append(add(offs[-1], mul(*e.shape)))

    def at(s, _):
        r = R(0)
        for e, o in reversed(list(zip(es, offs))):
            p = sub(s, o)
            r = ite(lt(s, add(o, mul(*e.shape))), e.at(p, ZERO) if e.shape[1] is ONE else e.at(imod(p, e.shape[0]), idiv(p, e.shape[0])), r)
        return r
    a = Arr((offs[-1], ONE), at, kind='MX')
    a.valid = and_(TRUE, *[e.valid if getattr(e, 'valid', None) is not None else lift(bool(e.sym)) for e in es])
    return a


class Parallel(Unit):
    name = 'parallel (elements)'
    targets = (D.parallel, D.SemiExplicitDae.__init__)
    assumptions = ASSUME + ('contracts of entry and struct_MX (C24, C21)',)
    bound = 'one, two and three models of any size'
    KEYS = (('x', 'ode', 'z', 'alg', 'u', 'p', 'quad'), ('x', 'ode'), ('x', 'ode', 'u', 't', 'tdp'))

    def cases(self):
        for sel in ((0,), (0, 0), (1, 0), (0, 2, 1), (1, 1)):
            yield self.case(sel)

    def case(self, sel):
        keysets = [self.KEYS[s] for s in sel]
        facts = []
        for i, ks in enumerate(keysets):
            facts += list(good(ks, D.SemiExplicitDae, '.%d' % i).facts)
            if 'p' in ks:
                facts.append(eq(cols('p.%d' % i), 1))
            if 'quad' in ks:
                facts.append(eq(cols('quad.%d' % i), 1))
        c = Case(label='models %s' % (sel,), ctx=Ctx(facts), contracts={('new', S3.MXVeccatStruct): struct_contract, ('new', S3.CasadiStructEntry): entry_contract, S3.entry: entry_contract})
        names = ('x', 'z', 'u', 'p', 'ode', 'alg', 'quad')

        def run(it):
            ms = [it.call(D.SemiExplicitDae, [], given(ks, D.SemiExplicitDae, '.%d' % i)) for i, ks in enumerate(keysets)]
            r = it.call(D.parallel, [Lst(ms)], {})
            c.ok = isinstance(r, Obj) and issubclass(r.cls, D.SemiExplicitDae)
            return tuple(it.getattr(r, k) for k in names)
        c.run = run

        def post(it, v, ctx):
            yield 'semi-explicit', lift(c.ok)
            for k, a in zip(names, v):
                if not is_arr(a, 2):
                    yield k + '-column', FALSE
                    continue
                off = ZERO
                for i, ks in enumerate(keysets):
                    if k not in ks:
                        continue
                    s = rows('%s.%d' % (k, i))
                    j = fresh('j')
                    yield '%s-of-model-%d' % (k, i), eq(a.at(add(off, j), ZERO), app('q:%s.%d' % (k, i), j, ZERO)), ctx.rng(j, ZERO, s)
                    off = add(off, s)
                yield k + '-size', and_(eq(a.shape[0], off), eq(a.shape[1], 1))
        c.post = guard(post)

        def models(rng):
            vs, fs, inst = {}, {}, []
            for i, ks in enumerate(keysets):
                q = rand_quantities(rng, ks, D.SemiExplicitDae, True)
                for k in q:
                    q[k][1] = 1
                m = dae_model(q, None, '.%d' % i)
                vs.update(m.vars)
                fs.update(m.funs)
                inst.append({k: [*a[:2], True if k in PURE else False] for k, a in q.items()})
            yield mkmodel(vs, funs=fs, inst=dict(kind='parallel', models=inst))
        c.models = models
        return c


def different(name, k, n):
    """the texts name(k), k = 0..n-1, are different: one number in a fixed text"""
    parts = name.args if isinstance(name, Rec) and name.name == 'text' else [name]
    nums = [p for p in parts if not isinstance(p, str)]
    if len(nums) != 1 or not isinstance(nums[0], Rec) or nums[0].name != 'str' or not isinstance(nums[0].args[0], T) or nums[0].args[0].sort != 'I':
        if not nums:
            return le(n, 1)
        raise OutOfReach('names of another form')
    i, j = fresh('i'), fresh('j')
    t = nums[0].args[0]
    return forall(i, ZERO, n, forall(j, ZERO, i, ne(subst(t, {k: i}), subst(t, {k: j}))))


class ParallelAll(Unit):
    name = 'parallel'
    targets = (D.parallel, D.SemiExplicitDae.__init__)
    assumptions = ASSUME + ('contracts of entry and struct_MX (C24, C21): the column of the elements of the expressions in order, for entries of different names',)
    NAMES = ('x', 'z', 'u', 'p', 'ode', 'alg', 'quad')
    EMPTY = ('t', 'tdp')

    def cases(self):
        N = var('N')

        def model(k):
            def quantity(a):
                def f(it, m):
                    return Rec('quantity', (a, m.args[0]), MX_, {})
                return f
            return Rec('model', (k,), D.SemiExplicitDae, {a: quantity(a) for a in self.NAMES + self.EMPTY})

        def entry(it, *a, **kw):
            if len(a) != 1 or set(kw) != {'expr'} or not is_text(a[0]):
                raise OutOfReach('entry')
            return Rec('entry', (a[0], kw['expr']), S3.CasadiStructEntry, {})

        def struct(it, entries, order=None):
            if order is not None or not isinstance(entries, (list, tuple)) or getattr(entries, 'rec', None) is not None:
                raise OutOfReach('struct_MX')
            l = list(entries)
            if len(l) != 1 or not isinstance(l[0], Seg) or len(l[0].elems) != 1 or not isinstance(l[0].elems[0], Rec) or l[0].elems[0].name != 'entry':
                raise OutOfReach('struct_MX of other entries')
            g = l[0]
            name, expr = g.elems[0].args
            if not (isinstance(expr, Rec) and expr.name == 'quantity'):
                raise OutOfReach('struct_MX of other expressions')
            it.oblige('distinct-names', different(name, g.var, g.n))
            a, k = expr.args
            r = Arr((sum_(g.var, ZERO, g.n, app('size:' + {'ode': 'x', 'alg': 'z'}.get(a, a), k, sort='I')), ONE), lambda i, j: app('cat:' + a, i), kind='MX')
            r.valid = lift(a in PURE)
            r.parts = Lst(l)
            return r
        k = fresh('k')
        facts = [le(0, N)] + [forall(k, ZERO, N, le(0, app('size:' + a, k, sort='I'))) for a in self.NAMES]
        # in a member, ode is as long as x and alg as long as z (C15)
        for kind in (Lst, tuple):
            c = Case(label='%s of models' % kind.__name__.lower(), ctx=Ctx(facts), contracts={('new', S3.MXVeccatStruct): struct, ('new', S3.CasadiStructEntry): entry, S3.entry: entry})

            def run(it, kind=kind, c=c):
                r = it.call(D.parallel, [seq(N, model, kind)], {})
                c.ok = isinstance(r, Obj) and issubclass(r.cls, D.SemiExplicitDae)
                return tuple(it.getattr(r, a) for a in self.NAMES + self.EMPTY)
            c.run = run

            def post(it, v, ctx, c=c):
                yield 'semi-explicit', lift(c.ok)
                for a, w in zip(self.NAMES, v):
                    if not is_arr(w, 2) or not hasattr(w, 'parts'):
                        raise OutOfReach('%s of another form' % a)
                    got = Lst([Seg(g.n, g.var, [e.args[1] for e in g.elems]) for g in w.parts])
                    yield from veq(a, got, seq(N, lambda k: Rec('quantity', (a, k), MX_, {})), ctx)
            c.post = guard(post)
            c.models = lambda rng: [mkmodel({'N': n}, funs={'size:' + a: lambda *z: Fraction(1) for a in self.NAMES}, inst=dict(kind='parallel', models=[{'x': [1, 1, True], 'ode': [1, 1, False]}] * n)) for n in (1, 2)]
            yield c


UNITS = [MakeImplicit, CreateFunction, CreateFunctionN, Parallel, ParallelAll]
