"""Symbolic collocation schemes: contracts of the callees of CollocationScheme and the scheme's own specification."""
import casadi as cs
from .util import *
from .c04 import TABLEAU
from pyvc.models_np import asarr
from pyvc.models_cs import csarr
import casadi_extras as ce
from casadi_extras import dae_model as DM_, structure3 as S3
from casadi_extras.collocation import collocation as C, butcher as B
from oracles.scheme import poly_model, tdp_value, build_native, evaluate, point_model

N, M = var('N'), var('M')
nx, nz, nu, np_, ntdp, nq = [var(s) for s in ('nx', 'nz', 'nu', 'np', 'ntdp', 'nq')]
SIZES = dict(x=nx, xdot=nx, z=nz, u=nu, p=np_, t=ONE, tdp=ntdp, dae=add(nx, nz), quad=nq)
INPUTS = ('xdot', 'x', 'z', 'u', 'p', 't', 'tdp')
T_ = fn('T')
hn = lambda n: sub(T_(add(n, 1)), T_(n))
A_, b_, c_ = fn('A'), fn('b'), fn('c')
tp = lambda n, j: add(T_(n), mul(hn(n), c_(j)))


# ------------------------------------------------------------------ assumed contracts of the callees
def tableau(it, order, method='legendre'):
    """C04: an order x order tableau of the method's collocation points"""
    it.oblige('order-positive', le(1, lift(order)))
    it.oblige('known-method', lift(method in ('radau', 'legendre')))
    order = lift(order)
    o = Obj(B.ButcherTableau)
    o.attrs.update(_A=Arr((order, order), lambda i, j: A_(i, j)), _b=Arr((order,), lambda i: b_(i)), _c=Arr((order,), lambda i: c_(i)))
    return o


def tableau_points(it, tau):
    """the tableau of the points casadi gives"""
    if isinstance(tau, Lst) and len(tau) == 1 and isinstance(tau[0], Seg) and len(tau[0].elems) == 1:
        e = tau[0].elems[0]
        if isinstance(e, T) and e.op == 'app' and str(e.args[0]).startswith('colp_') and e.args[1] is tau[0].n and e.args[2] is tau[0].var:
            return tableau(it, tau[0].n, e.args[0][5:])
    raise OutOfReach('tableau of other points')


def unwrap(f):
    return getattr(f, '__wrapped__', f)


def function(ins, outs):
    """casadi function of a model: inputs and outputs by name"""
    def cols(v, name, n, reduced):
        """column c of argument `name` of a mapped call as a term"""
        size = SIZES[name]
        return v

    def evaluate(it, args, kw, n, reduce_in):
        vals = dict(zip(ins, args))
        for k, v in kw.items():
            if k not in ins or k in vals:
                raise PyRaise(RuntimeError)
            vals[k] = v
        it.oblige('all-model-inputs', lift(set(ins) >= set(INPUTS)))
        full = {}
        for k in ins:
            size = SIZES[k]
            want = ONE if k in reduce_in else n
            if k not in vals:
                full[k] = Arr((size, want), lambda i, j: R(0), kind='DM')
                continue
            v = vals[k]
            if size is ONE and isinstance(v, Arr) and v.ndim == 1:
                full[k] = Arr((ONE, v.shape[0]), lambda i, j, v=v: v.at(j), kind='DM')
            else:
                full[k] = csarr(it, v)
            it.oblige('function-argument-shape', and_(eq(full[k].shape[0], size), eq(full[k].shape[1], want)))

        def arg(k, j):
            j = ZERO if k in reduce_in else j
            if SIZES[k] is ONE:
                return full[k].at(ZERO, j)
            l = fresh('l')
            return lam(l, ZERO, SIZES[k], full[k].at(l, j))
        return Dct({o: Arr((SIZES[o], n), lambda i, j, o=o: app('f:' + o, i, *[arg(k, j) for k in INPUTS if k in full]), kind='MX') for o in outs})

    def as_call(n, reduce_in):
        def call(it, *a, **kw):
            r = evaluate(it, a, kw, n, reduce_in)
            if kw or not a:
                return r
            return tuple(r.values()) if len(outs) > 1 else r[outs[0]]
        return Model_(call)

    def map_(it, *a):
        # map(n[, parallelization]) or map(name, parallelization, n, reduce_in, reduce_out, options)
        if a and isinstance(a[0], str):
            name, par, n, rin, rout = (list(a) + [[], []])[:5]
            it.oblige('no-reduced-outputs', lift(list(rout) == []))
            rin = [ins[k] if isinstance(k, int) else k for k in rin]
        else:
            n, rin = a[0], []
        n = lift(n)
        it.oblige('map-size', le(1, n))
        return Opq('mapped function', {'__call__': as_call(n, set(rin))})
    f = Opq('function', {'__call__': as_call(ONE, set())})
    f.attrs['expand'] = Model_(lambda it, *a: f)
    f.attrs['map'] = Model_(map_)
    return f


def create_function(it, self, name, in_arg, out_arg):
    """C16: the function of the named quantities"""
    ins, outs = list(in_arg), list(out_arg)
    it.oblige('known-names', lift(all(isinstance(k, str) for k in ins + outs) and len(set(ins)) == len(ins) and set(ins) <= set(INPUTS)
                                  and len(set(outs)) == len(outs) and set(outs) <= {'dae', 'quad'}))
    return function(ins, outs)


def model_object(cls):
    o = Obj(cls)
    for k in ('xdot', 'x', 'z', 'u', 'p', 't', 'tdp'):
        if k == 'xdot' and cls is not DM_.ImplicitDae:
            continue
        a = Arr((SIZES[k], ONE), lambda i, j, k=k: app('sym:model.' + k, i, j), kind='MX')
        a.sym = True
        o.attrs['_' + k] = a
    for k in ('dae', 'quad') if cls is DM_.ImplicitDae else ('quad',):
        o.attrs['_' + k] = Arr((SIZES[k], ONE), lambda i, j, k=k: app('expr:' + k, i, j), kind='MX')
    return o


def entry_contract(it, *a, **kw):
    """C24: an entry that only names an expression"""
    if len(a) != 1 or set(kw) != {'expr'} or not isinstance(a[0], str):
        raise OutOfReach('entry')
    return Opq('entry', {'name': a[0], 'expr': csarr(it, kw['expr'])})


def struct_contract(it, entries, order=None):
    """C21: the structure of the expressions of its entries, in order"""
    if isinstance(entries, Opq) and entries.name == 'struct_MX':      # a mutable copy
        return structure(it, Dct(entries.attrs['parts']))
    l = list(entries)
    if order is not None or not all(isinstance(e, Opq) and e.name == 'entry' for e in l):
        raise OutOfReach('struct_MX')
    it.oblige('distinct-names', lift(len({e.attrs['name'] for e in l}) == len(l)))
    return structure(it, Dct({e.attrs['name']: e.attrs['expr'] for e in l}))


def structure(it, parts):
    o = Opq('struct_MX', {'parts': parts})

    def getitem(it, k):
        if k not in parts:
            raise PyRaise(KeyError)
        return parts[k]

    def setitem(it, k, v):
        it.check_mut(parts)
        if k not in parts:
            raise PyRaise(KeyError)
        v = csarr(it, v)
        it.oblige('entry-shape', and_(*[eq(a, b) for a, b in zip(v.shape, parts[k].shape)]))
        parts[k] = v

    def call(it, flat):
        """the structure over another flat vector (C19, C21)"""
        if isinstance(flat, Flat):
            it.oblige('flat-vector-layout', lift(list(flat.parts) == list(parts)))
            return structure(it, Dct({k: flat.parts[k] for k in parts}))
        raise OutOfReach('structure of a vector')
    o.attrs.update(__getitem__=Model_(getitem), __setitem__=Model_(setitem), __call__=Model_(call),
                   keys=Model_(lambda it: list(parts)))
    return o


class Flat:
    """flat vector that is the concatenation of the vectorised parts"""

    def __init__(self, parts):
        self.parts = parts


SCHEME = {**TABLEAU,
          B.butcherTableuForCollocationMethod: tableau, unwrap(B.butcherTableuForCollocationMethod): tableau,
          B.butcherTableuForCollocationPoints: tableau_points,
          DM_.Dae.createFunction: create_function,
          DM_.SemiExplicitDae.makeImplicit: lambda it, o: model_object(DM_.ImplicitDae),
          DM_.ImplicitDae.makeImplicit: lambda it, o: o,
          ('new', S3.MXVeccatStruct): struct_contract,
          ('new', S3.CasadiStructEntry): entry_contract, S3.entry: entry_contract}


def colp(it, order, scheme):
    i = fresh('i')
    return Lst([Seg(lift(order), i, [app('colp_' + scheme, lift(order), i)])])


TABLES = [{cs.collocation_points: colp}]


# ------------------------------------------------------------------ specification
def sx(i, n): return app('sym:x', i, n)
def sK(i, p): return app('sym:K', i, p)


def state(i, n, j):
    """integrated state at point j of interval n"""
    k = fresh('k')
    return add(sx(i, n), mul(hn(n), sum_(k, ZERO, M, mul(A_(j, k), sK(i, add(mul(n, M), k))))))


def residual(o, i, n, j, repeat, tdp):
    """model output o, row i, at point j of interval n"""
    p = add(mul(n, M), j)
    l = fresh('l')
    col = lambda f, size: lam(l, ZERO, size, f(l))
    return app('f:' + o, i, col(lambda l: sK(l, p), nx), col(lambda l: state(l, n, j), nx), col(lambda l: app('sym:Z', l, p), nz),
               col(lambda l: app('sym:u', l, n), nu), col(lambda l: app('sym:P', l, p if repeat else ZERO), np_), tp(n, j),
               col(lambda l: app('tdp', l, tp(n, j)) if tdp else R(0), ntdp if tdp else ZERO))


def ctx0(extra=()):
    return Ctx([le(1, N), le(1, M), le(0, nx), le(0, nz), le(0, nu), le(0, np_), le(0, nq), le(0, ntdp)] + list(extra), {'T': dict(n=add(N, 1))})


def tdp_model(it, t):
    return Arr((ntdp, ONE), lambda i, j: app('tdp', i, t), kind='DM')


CONFIGS = []          # (label, model class, keyword arguments)
for cls_ in (DM_.ImplicitDae, DM_.SemiExplicitDae):
    CONFIGS.append((cls_.__name__, cls_, {}))
CONFIGS.append(('time-dependent parameter, radau', DM_.ImplicitDae, dict(method='radau', tdp=True)))
CONFIGS.append(('repeated parameters', DM_.ImplicitDae, dict(repeat_param=True)))
CONFIGS.append(('repeated parameters, no expansion, parallel', DM_.SemiExplicitDae, dict(repeat_param=True, expand=False, parallelization='unroll', options={}, tdp=True)))
CONFIGS.append(('no expansion', DM_.ImplicitDae, dict(expand=False)))


def build(it, cls, kw, tkind='array'):
    kw = dict(kw)
    if kw.pop('tdp', False):
        kw['tdp_fun'] = Model_(tdp_model)
    k = fresh('k')
    t = symarr('T', add(N, 1)) if tkind == 'array' else Lst([Seg(add(N, 1), k, [T_(k)])])
    return it.call(C.CollocationScheme, [model_object(cls), t, M], kw)


def scheme_case(label, cls, kw, observe, post, extra=(), models=True, observe_native=None):
    """a case about a scheme built with the options kw; observe(it, scheme) -> dict of observables"""
    facts = [] if kw.get('tdp') else [eq(ntdp, 0)]
    c = Case(label=label, ctx=ctx0(facts + list(extra)), contracts=SCHEME, tables=TABLES)
    c.run = lambda it: observe(it, build(it, cls, kw))
    c.post = guard(post)
    return c


# ------------------------------------------------------------------ concrete instances
def rand_inst(rng, cls, kw):
    d = dict(N=rng.randint(1, 3), M=rng.randint(1, 3), nx=rng.randint(1, 2), nz=rng.randint(0, 1), nu=rng.randint(0, 2), np=rng.randint(0, 2), nq=rng.randint(0, 2),
             ntdp=rng.randint(1, 2) if kw.get('tdp') else 0)
    t = [float(rng.randint(-3, 3))]
    for _ in range(d['N']):
        t.append(t[-1] + rng.choice([.5, 1., 2., .25]))
    d['T'] = t
    d['semi'] = cls is DM_.SemiExplicitDae
    d['kw'] = dict(kw)
    g = lambda r, c: [[rng.randint(-8, 8) / 4 for _ in range(c)] for _ in range(r)]
    NM = d['N'] * d['M']
    d['x'], d['K'], d['Z'], d['u'] = g(d['nx'], d['N'] + 1), g(d['nx'], NM), g(d['nz'], NM), g(d['nu'], d['N'])
    d['P'] = g(d['np'], NM if kw.get('repeat_param') else 1)
    return d


def model_of(d, inst=None):
    b = B.butcherTableuForCollocationPoints(cs.collocation_points(d['M'], d['kw'].get('method', 'legendre')))

    f = lambda kind: point_model(d, kind)
    arrays = {'T': d['T'], 'A': b.A, 'b': b.b, 'c': b.c}
    for k in ('x', 'K', 'Z', 'u', 'P'):
        arrays['sym:' + k] = d[k]
    m = mkmodel({k: d[k] for k in ('N', 'M', 'nx', 'nz', 'nu', 'np', 'nq', 'ntdp')}, arrays, funs={'f:dae': f('dae'), 'f:quad': f('quad'), 'tdp': lambda i, t: tdp_value(int(i), t)},
                inst=inst if inst is not None else d, d=d)
    return m


def scheme_case(label, cls, kw, observe, post, native, extra=()):
    """a case about a scheme built with the options kw; observe(it, scheme) and native(d, scheme) -> observables"""
    facts = [] if kw.get('tdp') else [eq(ntdp, 0)]
    c = Case(label=label, ctx=ctx0(facts + list(extra)), contracts=SCHEME, tables=TABLES)
    c.run = lambda it: observe(it, build(it, cls, kw))
    c.post = guard(post)
    c.models = lambda rng: [model_of(rand_inst(rng, cls, kw)) for _ in range(3)]

    def nat(m):
        d = m.native['d']
        return native(d, build_native(d)[1])
    c.native = nat
    return c
