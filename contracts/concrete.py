"""Whole operations on concrete structures, carried out by the extractor and by the real code: translation validation of the units of C18 to C24."""
import random
import casadi as cs
import numpy as np
from pyvc import models_np
from pyvc.interp import PyRaise
from pyvc.values import Lst, Dct, is_symbolic
from .structs import case, S3
from oracles import structs as O
from oracles.c22 import small
from oracles.c20 import rand_index, real_index, fn_twice


class Nat:
    """the operations of the extractor a session needs, by Python itself"""

    def call(self, f, args, kw):
        return f(*args, **kw)

    def getattr(self, o, n):
        return getattr(o, n)

    def getitem(self, o, i):
        return o[i]

    def setitem(self, o, i, v):
        o[i] = v


def plain(v):
    """numbers, texts and lists of a result of either kind"""
    if isinstance(v, cs.DM):
        return [list(v.shape), [int(k) for k in v.sparsity().find()], [float(x) for x in v.nonzeros()]]
    if isinstance(v, (cs.SX, cs.MX)):
        return [list(v.shape), str(v)]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[str(k), plain(v[k])] for k in sorted(v, key=str)]
    if isinstance(v, Dct):
        return [[str(k), plain(x)] for k, x in sorted(v.items(), key=lambda p: str(p[0]))]
    return v


def build(x, d, cls=S3.struct):
    """the declarations by Python, the structure by the extractor"""
    l = O.real_items(d)
    order = O.real_order(d)
    if not isinstance(x, Nat):
        l, order = Lst(l), order if order is None else Lst(order)
    return x.call(cls, [l], {} if order is None else {'order': order})


def meth(x, o, n, *a):
    return x.call(x.getattr(o, n), list(a), {})


def layout(d):
    L = O.Layout(d)
    some = random.Random(3)

    def run(x):
        s = build(x, d)
        out = [x.getattr(s, 'size'), meth(x, s, 'keys'), meth(x, s, 'labels'), meth(x, x.getattr(s, 'struct'), 'traverseCanonicalIndex')]
        out += [meth(x, s, 'getCanonicalIndex', k, m) for k in range(0, L.size, 3) for m in (0, 1, 2)]
        out += [meth(x, s, 'getLabel', k) for k in range(0, L.size, 5)]
        i = x.getattr(s, 'i')
        return out + [x.getitem(i, c) for c in list(L.prim)[:6] + list(L.sub)[:3]]
    return run


def session(d, seed):
    """reads and writes through power indices"""
    rng = random.Random(seed)
    L = O.Layout(d)
    st = O.real(d)
    data = cs.DM([rng.randint(1, 99) for _ in range(L.size)])
    ops = []
    for _ in range(5):
        ix = real_index(rand_index(rng, d))
        if any(callable(a) for a in ix):
            continue
        v = None
        if rng.random() < .5:
            try:
                v = fn_twice(st(data)[ix]) if rng.random() < .6 else float(rng.randint(200, 300))
                w = st(data)
                w[ix] = v
            except Exception:
                v = None
        try:
            st(data)[ix]
        except Exception:
            continue
        ops.append((ix, v))

    def arg(x, v):
        if isinstance(x, Nat):
            return v
        if isinstance(v, list):
            return Lst([arg(x, a) for a in v])
        if isinstance(v, tuple):
            return tuple(arg(x, a) for a in v)
        return v

    def run(x):
        s = x.call(build(x, d), [cs.DM(data)], {})
        out = []
        for ix, v in ops:
            i = arg(x, ix)
            if v is not None:
                x.setitem(s, i, arg(x, v))
                out.append(cs.DM(x.getattr(s, 'cat')))
            out.append(x.getitem(s, i))
        return out
    return run


def write(it, o, i, v):
    """native matrices are changed in place"""
    if not isinstance(o, (cs.DM, cs.NZproxy)) or is_symbolic(v):
        return models_np.setitem(it, o, i, v)
    try:
        o[tuple(list(a) if isinstance(a, Lst) else a for a in i) if isinstance(i, tuple) else list(i) if isinstance(i, Lst) else i] = v
    except Exception as e:
        raise PyRaise(type(e), e.args)


def views(d, seed):
    """repeated columns of a matrix"""
    rng = random.Random(seed)
    n = O.size_of(d)
    M = cs.DM([[rng.randint(1, 99) for _ in range(3)] for _ in range(n)])
    ops = [(rng.randint(-3, 2), rng.choice(list(O.Layout(d).prim)), float(rng.randint(200, 300))) for _ in range(3)]

    def run(x):
        m = cs.DM(M)
        s = build(x, d)
        v = meth(x, s, 'repeated', m)
        out = []
        for k, c, w in ops:
            out.append(x.getitem(v, (k,) + c))
            x.setitem(v, (k,) + c, w)
            out.append(cs.DM(m))
        return out + ([] if any(e.get('dims') for e in O.flat_entries(d)) else [meth(x, s, 'parseMatrix', np.array(M)[:, :2])])
    return run


SESSIONS = dict(layout=lambda d, k: layout(d), session=session, views=views)


def cases(kind, n=4, **kw):
    rng = random.Random(kind + str(n))
    for k in range(n):
        try:
            d = small(rng) if kind == 'views' else O.rand_struct(rng, rng.choice([0, 1, 1, 2]), **kw)
            run = SESSIONS[kind](d, k)
        except Exception:
            continue        # declarations that cannot be made: the contracts and the oracle decide
        yield case('concrete structure %d' % k, lambda it, run=run: run(it), lambda *a, **b: [], native=lambda m, run=run: plain(run(Nat())), observe_sym=plain, tables=[{'setitem': write}])


def validate(units, **kinds):
    """further cases of the named units"""
    for U in units:
        for kind, names in kinds.items():
            if U.name in names:
                def cases_(self, old=U.cases, kind=kind):
                    yield from old(self)
                    yield from cases(kind)
                U.cases = cases_
