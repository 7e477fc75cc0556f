"""C15: construction of DAE models."""
from .dae import *

EXTRA = {D.Dae: (), D.SemiExplicitDae: ('ode', 'alg'), D.ImplicitDae: ('xdot', 'dae')}
NEED = {D.Dae: ('x',), D.SemiExplicitDae: ('x', 'ode'), D.ImplicitDae: ('x', 'xdot', 'dae')}
NUM = dict(nx='x', nz='z', nu='u', np='p', ntdp='tdp', nq='quad')


class Construct(Unit):
    assumptions = ('a casadi expression is known by its shape and by whether it is purely symbolic; is_column, is_scalar, numel and is_valid_input report them',)
    props = tuple(getattr(D.Dae, k).fget for k in ('x', 'z', 'u', 'p', 't', 'quad', 'tdp', 'nx', 'nz', 'nu', 'np', 'ntdp', 'nq'))

    def cases(self):
        opt = [k for k in MODEL + EXTRA[self.cls] if k not in NEED[self.cls]]
        base = NEED[self.cls]
        yield self.case(base)
        yield self.case(base + tuple(opt))
        for k in opt:
            yield self.case(base + (k,))
            yield self.case(base + tuple(o for o in opt if o != k))

    def case(self, keys):
        cls = self.cls
        c = Case(label=','.join(keys), ctx=quantity_ctx(keys))
        qs = {k: quantity(k) for k in keys}
        names = MODEL + EXTRA[cls]

        def run(it):
            o = it.call(cls, [], dict(qs))
            return tuple(it.getattr(o, k) for k in names), tuple(it.getattr(o, k) for k in NUM)
        c.run = run

        def post(it, kind, v, ctx):
            ok = well_formed(keys, cls)
            if kind == 'raise':
                yield 'rejected-with-ValueError', lift(issubclass(v.etype, ValueError))
                yield 'rejects-only-malformed', not_(ok)
                return
            yield 'accepts-only-well-formed', ok
            for k, a in zip(names, v[0]):
                if k in keys:
                    yield k + '-unchanged', lift(a is qs[k])
                elif not is_arr(a, 2):
                    yield k + '-omitted', FALSE
                else:
                    yield k + '-omitted', and_(eq(mul(*a.shape), ONE if k == 't' else ZERO), lift(k in ('quad', 'alg') or bool(a.sym)))
            for k, a in zip(NUM, v[1]):
                yield k, eq(lift(a), numel(NUM[k]) if NUM[k] in keys else ZERO)
        c.post = post

        def models(rng):
            for i in range(8):
                q = rand_quantities(rng, keys, cls, True if i < 2 else None)
                vs = {}
                for k in keys:
                    vs['r:' + k], vs['c:' + k] = q[k][:2]
                yield mkmodel(vs, funs={'pure:' + k: (lambda b: lambda: b)(q[k][2]) for k in keys}, inst=dict(cls=cls.__name__, q=q), q=q)
        c.models = models

        def native_(mo):
            o = cls(**{k: native(k, *a) for k, a in mo.native['q'].items()})
            return tuple(getattr(o, k) for k in NUM)
        c.native = native_
        c.observe_sym = lambda v: v[1]
        return c


def unit(cls):
    ex = tuple(getattr(cls, k).fget for k in EXTRA[cls])
    return type(cls.__name__, (Construct,), dict(name=cls.__name__ + '.__init__', cls=cls, targets=(cls.__init__,) + ((D.Dae.__init__,) if cls is not D.Dae else ()) + Construct.props + ex))


UNITS = [unit(D.Dae), unit(D.SemiExplicitDae), unit(D.ImplicitDae)]
