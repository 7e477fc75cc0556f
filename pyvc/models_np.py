"""Trusted models of the Python builtins and of the numpy functions used by the code (exact real arithmetic)."""
import builtins
import numpy as np
from .term import *
from . import term as tm
from .values import *
from .interp import to_arr, Star, wrap, as_scalar, text, formatted, under
from .prove import simp

TABLE = {}
NUM = (int, float, T, np.number, bool, np.bool_)


def model(*keys, always=False):
    def deco(f):
        for k in keys:
            g = f
            if always:
                g = lambda it, *a, _f=f, **kw: _f(it, *a, **kw)
                g.always = True
            TABLE[k] = g
        return f
    return deco


def scal(v):
    if isinstance(v, Arr) and v.ndim == 0:
        return v.at()
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return lift(v.item())
    if isinstance(v, NUM):
        return lift(v)
    raise OutOfReach('scalar expected, got %s' % type(v).__name__)


def ret(a):
    """numpy returns scalars instead of 0-d arrays"""
    if isinstance(a, Arr) and a.ndim == 0 and a.kind == 'np':
        return as_py(a.at())
    return a


def asarr(it, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, NUM):
        t = lift(v)
        return Arr((), lambda: t)
    if isinstance(v, np.ndarray):
        return to_arr(v)
    if isinstance(v, Lst) and len(v) == 1 and isinstance(v[0], FSeg):
        f = v[0]
        return Filt(f.n, f.var, f.cond, f.elem)
    if isinstance(v, Filt):
        return v
    if isinstance(v, (list, tuple)):
        if not v:
            return Arr((0,), lambda i: R(0))
        items = list(v)
        return stack(it, items)
    if hasattr(v, '__array__') and not isinstance(v, Opq):
        return to_arr(np.asarray(v))
    raise OutOfReach('array from %s' % type(v).__name__)


def stack(it, items):
    """np.array(list)"""
    l = Lst(items)
    n = lift(it.length(l))
    # all items have the same shape
    proto = None
    for x in items:
        for e in (x.elems if isinstance(x, Seg) else [x]):
            a = asarr(it, e)
            if isinstance(a, Filt):
                if len(items) == 1:
                    return a        # 1-by-m: only reductions over all elements are supported
                raise OutOfReach('array of filtered arrays')
            if proto is None:
                proto = a
                pe = x
            else:
                if a.ndim != proto.ndim:
                    raise OutOfReach('ragged array')
                for s, t in zip(a.shape, proto.shape):
                    if s is not t:
                        it.oblige('array-rows-equal-length', eq(s, t))
    if proto.ndim and isinstance(pe, Seg) and any(pe.var in fv(s) for s in proto.shape):
        raise OutOfReach('ragged array')
    k0 = fresh('i')
    saved = it.ctx
    it.ctx = it.ctx.rng(k0, ZERO, n)
    try:
        v = it.seq_at(Lst([conv_item(it, x) for x in items]), k0)
    finally:
        it.ctx = saved
    v = asarr(it, v)
    return Arr((n,) + proto.shape, lambda i, *r: subst(v.at(*r), {k0: i}))


def conv_item(it, x):
    if isinstance(x, Seg):
        return Seg(x.n, x.var, [asarr(it, e) for e in x.elems])
    return asarr(it, x)


def bshape(it, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = None
        for s in shapes:
            q = d - (nd - len(s))
            if q < 0:
                continue
            x = s[q]
            if isconst(x) and x.args[0] == 1:
                continue
            if cur is None:
                cur = x
            elif cur is not x:
                it.oblige('shapes-match', eq(cur, x))
        out.append(ONE if cur is None else cur)
    return tuple(out)


def bidx(a, idx, nd=None):
    """index of array a inside a broadcast result"""
    k = len(idx) - a.ndim
    return [ZERO if isconst(s) and s.args[0] == 1 else i for s, i in zip(a.shape, idx[k:])]


def elementwise(it, f, *arrs):
    arrs = [asarr(it, a) for a in arrs]
    fl = [a for a in arrs if isinstance(a, Filt)]
    if fl:
        base = fl[0]
        for a in arrs:
            if isinstance(a, Arr) and a.ndim:
                raise OutOfReach('filtered array with array operand')
            if isinstance(a, Filt) and (a.cond is not subst(base.cond, {base.var: a.var}) or a.n is not base.n):
                raise OutOfReach('two filtered arrays')
        args = []
        for a in arrs:
            args.append(subst(a.elem, {a.var: base.var}) if isinstance(a, Filt) else a.at())
        return Filt(base.n, base.var, base.cond, f(*args))
    sh = bshape(it, [a.shape for a in arrs])
    return ret(Arr(sh, lambda *i: f(*[a.at(*bidx(a, i)) for a in arrs])))


def forall_elems(it, name, a, f):
    """obligation f(element) for every element"""
    a = asarr(it, a)
    ctx = it.ctx
    if isinstance(a, Filt):
        v = fresh('d')
        it.oblige(name, f(subst(a.elem, {a.var: v})), ctx.rng(v, ZERO, a.n) + subst(a.cond, {a.var: v}))
        return
    vs = [fresh('d') for _ in a.shape]
    for v, s in zip(vs, a.shape):
        ctx = ctx.rng(v, ZERO, s)
    it.oblige(name, f(a.at(*vs)), ctx)


def is_cs(v):
    return isinstance(v, Arr) and v.kind != 'np'


BINF = {'add': add, 'sub': sub, 'mult': mul}


@model('binop')
def binop(it, op, a, b):
    if is_cs(a) or is_cs(b):
        return it.table_call('cs_binop', [op, a, b], {})
    if isinstance(a, Poly) or isinstance(b, Poly):
        return poly_binop(it, op, a, b)
    if isinstance(a, (Lst, tuple)) and not isinstance(b, (Arr, np.ndarray, Filt)):
        raise OutOfReach('list operator')
    if op in BINF:
        f = BINF[op]

        def g(x, y):
            return f(num(x), num(y))
        return elementwise(it, g, a, b)
    if op == 'div':
        forall_elems(it, 'division-by-nonzero', b, lambda x: ne(num(x), 0))
        return elementwise(it, lambda x, y: div(tm.to_real(num(x)), num(y)), a, b)
    if op in ('floordiv', 'mod'):
        forall_elems(it, 'division-by-positive', b, lambda x: lt(ZERO, x))
        x, y = asarr(it, a), asarr(it, b)
        for z in (x, y):
            if z.body.sort != 'I':
                raise OutOfReach('floor division of reals')
        return elementwise(it, idiv if op == 'floordiv' else imod, x, y)
    if op == 'pow':
        return elementwise(it, lambda x, y: power(x, y), a, b)
    if op == 'matmul':
        return dot(it, a, b)
    if op in ('and', 'or'):
        def g(x, y):
            if x.sort != 'B' or y.sort != 'B':
                raise OutOfReach('bitwise operation on numbers')
            return and_(x, y) if op == 'and' else or_(x, y)
        return elementwise(it, g, a, b)
    raise OutOfReach('operator %s' % op)


def num(x):
    return tm.b2n(x) if x.sort == 'B' else x


@model('unary')
def unary(it, op, v):
    if is_cs(v):
        return it.table_call('cs_unary', [op, v], {})
    if isinstance(v, Poly):
        if op == 'neg':
            return Poly(v.x, neg(v.body))
        raise OutOfReach('unary on polynomial')
    if op == 'neg':
        return elementwise(it, lambda x: neg(num(x)), v)
    return elementwise(it, lambda x: not_(x) if x.sort == 'B' else sub(neg(x), 1), v)


@model('compare')
def compare(it, op, a, b):
    if is_cs(a) or is_cs(b):
        return it.table_call('cs_compare', [op, a, b], {})
    if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(a, Obj) or isinstance(b, Obj):
        if op == 'Eq':
            return a is b
        if op == 'NotEq':
            return a is not b
    f = {'Eq': eq, 'NotEq': ne, 'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}[op]
    return elementwise(it, lambda x, y: f(x, y), a, b)


# ------------------------------------------------------------------ polynomials
def poly_of(it, v):
    if isinstance(v, Poly):
        return v
    x = fresh('X', 'R')
    return Poly(x, tm.to_real(scal(v)))


def poly_binop(it, op, a, b):
    if isinstance(a, Arr) and a.ndim or isinstance(b, Arr) and b.ndim:
        raise OutOfReach('polynomial with array operand')
    if op == 'pow':
        e = lift(b)
        x = fresh('X', 'R')
        return Poly(x, power(a.at(x), e))
    if op == 'div':
        if isinstance(b, Poly):
            raise OutOfReach('polynomial division')
        it.oblige('division-by-nonzero', ne(scal(b), 0))
        x = fresh('X', 'R')
        return Poly(x, div(a.at(x), scal(b)))
    if op in BINF:
        p, q = poly_of(it, a), poly_of(it, b)
        x = fresh('X', 'R')
        return Poly(x, BINF[op](p.at(x), q.at(x)))
    raise OutOfReach('polynomial operator %s' % op)


@model(np.poly1d, always=True)
def poly1d(it, c, r=False, variable=None):
    x = fresh('X', 'R')
    if isinstance(c, Poly):
        return Poly(x, c.at(x))
    a = asarr(it, c if not isinstance(c, np.poly1d) else c.coeffs)
    if a.ndim == 0:
        return Poly(x, tm.to_real(a.at())) if not r else Poly(x, sub(x, a.at()))
    n = a.shape[0]
    if r:
        i = fresh('i')
        return Poly(x, prod_(i, ZERO, n, sub(x, a.at(i))))
    if isconst(n):
        m = int(n.args[0])
        return Poly(x, add(R(0), *[mul(a.at(lift(i)), power(x, I(m - 1 - i))) for i in range(m)]))
    i = fresh('i')
    return Poly(x, sum_(i, ZERO, n, mul(a.at(i), power(x, sub(sub(n, 1), i)))))


@model('poly_call')
def poly_call(it, p, t):
    if isinstance(t, Poly):
        x = fresh('X', 'R')
        return Poly(x, p.at(t.at(x)))
    return elementwise(it, lambda x: p.at(tm.to_real(x)), t)


@model(np.polyval)
def polyval(it, p, t):
    if not isinstance(p, Poly):
        p = poly1d(it, p)
    return poly_call(it, p, t)


@model(np.polyint)
def polyint(it, p, m=1, k=None):
    if m != 1 or k is not None:
        raise OutOfReach('polyint with options')
    x, y = fresh('X', 'R'), fresh('Y', 'R')
    return Poly(x, integral(y, R(0), x, p.at(y)))


@model(np.polyder)
def polyder(it, p, m=1):
    if m != 1:
        raise OutOfReach('polyder with options')
    x, y = fresh('X', 'R'), fresh('Y', 'R')
    return Poly(x, deriv(y, p.at(y), x))


TABLE[('attr', Poly, 'deriv')] = lambda it, p: Model_(lambda it, m=1: polyder(it, p, m))
TABLE[('attr', Poly, 'integ')] = lambda it, p: Model_(lambda it, m=1, k=None: polyint(it, p, m, k if k else None))


# ------------------------------------------------------------------ builtins
@model(builtins.len, always=True)
def len_(it, v):
    return it.length(v)


@model(builtins.range, always=True)
def range_(it, *a):
    a = [as_py(scal(x)) for x in a]
    if not is_symbolic(a):
        return range(*a)
    lo, hi, st = (ZERO, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    lo, hi = lift(lo), lift(hi)
    for x in (lo, hi):
        if x.sort != 'I':
            raise OutOfReach('range of non-integers')
    if st == 1:
        n = sub(hi, lo)
        if it.ctx.decide(le(ZERO, n)) is not True:
            n = maxt(n, ZERO)
        return SIter(n, lambda k: as_py(add(lo, k)))
    if st == -1:
        n = sub(lo, hi)
        if it.ctx.decide(le(ZERO, n)) is not True:
            n = maxt(n, ZERO)
        return SIter(n, lambda k: as_py(sub(lo, k)))
    st = lift(st)
    if it.ctx.decide(lt(ZERO, st)) is not True:
        raise OutOfReach('range with unknown step')
    span = sub(hi, lo)
    # number of steps: exact multiples are recognised
    from .prove import exact_div
    q = exact_div(span, st)
    if q is not None:
        n = q
    else:
        n = idiv(add(span, sub(st, 1)), st)
    if it.ctx.decide(le(ZERO, n)) is not True:
        n = maxt(n, ZERO)
    return SIter(n, lambda k: as_py(add(lo, mul(st, k))))


def siter(it, v):
    r = it.iterate(v)
    return r


@model(builtins.enumerate, always=True)
def enumerate_(it, v, start=0):
    s = it.iterate(v)
    if isinstance(s, SIter):
        return SIter(s.n, lambda k: (as_py(add(lift(start), k)), s.at(k)))
    return Lst([(as_py(add(lift(start), i)), x) for i, x in enumerate(s)])


def aligned(it, vs):
    """zip of sequences made of the same number of runs of equal lengths"""
    if not all(isinstance(v, (list, tuple)) and getattr(v, 'rec', None) is None for v in vs) or len({len(v) for v in vs}) != 1 or len(vs[0]) < 2:
        return None
    out = []
    for xs in zip(*vs):
        if all(isinstance(x, Seg) and len(x.elems) == 1 and not x.nested for x in xs):
            if not all(x.n is xs[0].n or it.ctx.decide(eq(x.n, xs[0].n)) is True for x in xs[1:]):
                return None
            k = fresh('k')
            out.append(Seg(xs[0].n, k, [tuple(x.at(k) for x in xs)]))
        elif any(isinstance(x, (Seg, FSeg)) for x in xs):
            return None
        else:
            out.append(tuple(xs))
    return Lst(out)


@model(builtins.zip, always=True)
def zip_(it, *vs):
    z = aligned(it, vs)
    if z is not None:
        return z
    ss = [it.iterate(v) for v in vs]
    if not any(isinstance(s, SIter) for s in ss):
        return Lst(zip(*ss))
    n = None
    for s in ss:
        m = s.n if isinstance(s, SIter) else I(len(s))
        if n is None or n is m or it.ctx.decide(le(n, m)):
            n = m if n is None else n
        elif it.ctx.decide(le(m, n)):
            n = m
        else:
            n = mint(n, m)

    def at(k):
        return tuple(s.at(k) if isinstance(s, SIter) else it.seq_at(Lst(s), k) for s in ss)
    return SIter(n, at)


@model(builtins.reversed, always=True)
def reversed_(it, v):
    s = it.iterate(v)
    if isinstance(s, SIter):
        return SIter(s.n, lambda k: s.at(sub(sub(s.n, 1), k)))
    return Lst(reversed(s))


@model(builtins.list, always=True)
def list_(it, v=()):
    if isinstance(v, Lst):
        return Lst(it.list_items(v))
    s = it.iterate(v)
    if isinstance(s, SIter):
        k = fresh('k')
        return Lst([Seg(s.n, k, [s.at(k)])])
    return Lst(s)


@model(builtins.tuple, always=True)
def tuple_(it, v=()):
    if has_seg(v):
        return tuple(v)
    s = it.iterate(v)
    if isinstance(s, SIter):
        return tuple(list_(it, v))
    return tuple(s)


@model(builtins.dict, always=True)
def dict_(it, *a, **k):
    d = Dct()
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            if has_seg(a[0]):
                if k:
                    raise OutOfReach('symbolic dict')
                return SDct(Lst(a[0]))
            s = it.iterate(a[0])
            if isinstance(s, SIter):
                raise OutOfReach('symbolic dict')
            for x, y in s:
                d[it_key(x)] = y
    d.update(k)
    return d


def occurrences(v):
    """the elements of a sequence: bound variables with their numbers of values, element"""
    out = []
    for x in v:
        if isinstance(x, FSeg):
            raise OutOfReach('elements of a filtered list')
        if isinstance(x, Seg):
            for b, e in occurrences(x.elems):
                out.append(([(x.var, x.n)] + b, e))
        else:
            out.append(([], x))
    return out


def fresh_copy(b, e):
    nb = []
    for i, (v, n) in enumerate(b):
        w = fresh('o')
        nb.append((w, n))
        b = b[:i + 1] + [(u, subst(m, {v: w})) for u, m in b[i + 1:]]
        nb[-1] = (w, b[i][1])
        e = vsubst(e, {v: w})
    return nb, e


def bound(q, b, body):
    for v, n in reversed(b):
        body = q(v, ZERO, n, body)
    return body


def distinct(it, v):
    """the elements differ from each other"""
    occ = occurrences(v)
    r = TRUE
    for i, (b, e) in enumerate(occ):
        for j, (c, f) in enumerate(occ[i:], i):
            (b1, e1), (c1, f1) = fresh_copy(b, e), fresh_copy(c, f)
            differ = not_(it.truth(it.compare('Eq', e1, f1)))
            if i == j:
                if not b:
                    continue
                differ = or_(and_(*[eq(x[0], y[0]) for x, y in zip(b1, c1)]), differ)
            r = and_(r, bound(forall, b1, bound(forall, c1, differ)))
    return r


def within(it, v, w):
    """every element of v is one of w"""
    r = TRUE
    for b, e in occurrences(v):
        b, e = fresh_copy(b, e)
        r = and_(r, bound(forall, b, it.member(w, e)))
    return r


@model(builtins.set)
def set_b(it, v=()):
    if isinstance(v, Rec) and v.name == 'set':
        return v
    v = list_(it, v)
    if not has_seg(v) or v.rec is not None:
        raise OutOfReach('symbolic set')
    cache = {}

    def size(it, s):
        l = s.args[0]
        if 'n' not in cache:
            cache['n'] = fresh('card')
        c = cache['n']
        it.ctx = it.ctx + le(ZERO, c)
        if not any(isinstance(x, FSeg) for x in l):
            n = it.length(l)
            if it.branch(distinct(it, l)):
                return n
            it.ctx = it.ctx + lt(c, n)
        return c
    def same(it, x, y):
        if isinstance(y, (set, frozenset)):
            y = Lst(y)
        elif isinstance(y, Rec) and y.name == 'set':
            y = y.args[0]
        else:
            raise OutOfReach('comparison of a set')
        return and_(within(it, x.args[0], y), within(it, y, x.args[0]))
    return Rec('set', (v,), set, {'__eq__': same, '__len__': size, '__contains__': lambda it, s, x: it.contains(s.args[0], x),
                                  '__iter__': lambda it, s: Lst([Seg(size(it, s), (k := fresh('k')), [Rec('member', (s, k))])])})


@model(builtins.sorted)
def sorted_b(it, v, **kw):
    if kw:
        raise OutOfReach('sorted by a key')
    v = list_(it, v)
    if not has_seg(v) or v.rec is not None:
        raise OutOfReach('sorted')

    def same(it, x, y):
        if not isinstance(y, Rec) or y.name != 'sorted':
            raise OutOfReach('comparison of a sorted list')
        a, b = x.args[0], y.args[0]
        if not any(it.ctx.decide(distinct(it, l)) is True for l in (a, b)):
            raise OutOfReach('comparison of sorted lists with repeated elements')
        return and_(eq(lift(it.length(a)), lift(it.length(b))), within(it, a, b), within(it, b, a))
    return Rec('sorted', (v,), list, {'__eq__': same})


def it_key(x):
    if is_symbolic(x):
        raise OutOfReach('symbolic key')
    return x


class Iter:
    """iterator over a list of known length"""
    symbolic_value = True

    def __init__(self, items):
        self.items, self.pos = items, 0
        self.serial = next(_serial_counter())


def _serial_counter():
    from . import values
    return values._serial


@model(builtins.iter, always=True)
def iter_b(it, v):
    if isinstance(v, Iter):
        return v
    x = it.iterate(v)
    if not isinstance(x, list):
        raise OutOfReach('iterator over a symbolic sequence')
    return Iter(list(x))


@model(builtins.next, always=True)
def next_b(it, v, *default):
    if not isinstance(v, Iter):
        raise OutOfReach('next of %s' % type(v).__name__)
    if it.thresholds and v.serial < it.thresholds[-1]:
        raise OutOfReach('iterator advanced in a symbolic loop')
    if v.pos >= len(v.items):
        if default:
            return default[0]
        raise PyRaise(StopIteration)
    v.pos += 1
    return v.items[v.pos - 1]


@model(builtins.map, always=True)
def map_(it, f, *vs):
    if len(vs) != 1:
        raise OutOfReach('map over several sequences')
    import ast
    from .interp import Frame
    fr = Frame({'_f': f, '_v': vs[0]})
    return it.comp(MAP_NODE, fr)


import ast as _ast
MAP_NODE = _ast.parse('[_f(_x) for _x in _v]', mode='eval').body


@model(builtins.sum)
def sum_b(it, v, start=0):
    if isinstance(start, list) and isinstance(v, Lst) and it.list_items(v) is v:
        def flat(x):
            if isinstance(x, FSeg):
                raise OutOfReach('sum of a filtered list')
            if isinstance(x, Seg):
                es = [y for e in x.elems for y in flat(e)]
                return [Seg(x.n, x.var, es)] if es else []
            if isinstance(x, Rec) and x.name == 'ite':
                return [Seg(ite(c, ONE, ZERO), fresh('once'), es) for c, y in ((x.args[0], under(x.args[1], {x.args[0]: True})), (not_(x.args[0]), under(x.args[2], {x.args[0]: False}))) if (es := flat(y))]
            if isinstance(x, (Rec, Opq)):
                raise OutOfReach('sum of opaque values')
            if not isinstance(x, list):
                raise PyRaise(TypeError)
            return list(it.list_items(x))
        return Lst(list(start) + [y for x in v for y in flat(x)])
    if isinstance(v, Lst) and v.symbolic():
        acc = start
        for x in v:
            if isinstance(x, FSeg) and not isinstance(x.elem, T):
                raise OutOfReach('sum of filtered values')
            if isinstance(x, FSeg):
                acc = it.binop('add', acc, sum_(x.var, ZERO, x.n, ite(x.cond, x.elem, R(0))))
            elif isinstance(x, Seg):
                for e in x.elems:
                    acc = it.binop('add', acc, seg_sum(it, x.n, x.var, e))
            else:
                acc = it.binop('add', acc, x)
        return acc
    s = it.iterate(v)
    if isinstance(s, SIter):
        k = fresh('k')
        return it.binop('add', start, seg_sum(it, s.n, k, s.at(k)))
    acc = start
    for x in s:
        acc = it.binop('add', acc, x)
    return acc


def seg_sum(it, n, k, e):
    if isinstance(e, NUM):
        return sum_(k, ZERO, n, num(lift(e)))
    if isinstance(e, Arr):
        return Arr(e.shape, lambda *i: sum_(k, ZERO, n, e.at(*i)), kind=e.kind)
    if isinstance(e, Poly):
        x = fresh('X', 'R')
        return Poly(x, sum_(k, ZERO, n, e.at(x)))
    raise OutOfReach('sum of %s' % type(e).__name__)


@model(builtins.any, always=True)
def any_b(it, v):
    return quant(it, v, exists, or_, FALSE)


@model(builtins.all, always=True)
def all_b(it, v):
    return quant(it, v, forall, and_, TRUE)


def quant(it, v, q, comb, zero):
    if isinstance(v, Lst) and len(v) == 1 and isinstance(v[0], FSeg):
        f = v[0]
        e = it.truth(f.elem)
        return as_py(q(f.var, ZERO, f.n, and_(f.cond, e) if q is exists else implies(f.cond, e)))
    if isinstance(v, (Lst, tuple)) and getattr(v, 'rec', None) is None and has_seg(v) and len(v) > 1 and not any(isinstance(x, FSeg) or isinstance(x, Seg) and (x.nested or len(x.elems) != 1) for x in v):
        r = zero
        for x in v:
            r = comb(r, q(x.var, ZERO, x.n, it.truth(x.elems[0])) if isinstance(x, Seg) else it.truth(x))
        return as_py(r)
    s = it.iterate(v)
    if isinstance(s, SIter):
        k = fresh('k')
        return as_py(q(k, ZERO, s.n, it.truth(s.at(k))))
    r = zero
    for x in s:
        r = comb(r, it.truth(x))
    return as_py(r)


@model(builtins.int)
def int_(it, v):
    t = scal(v)
    if t.sort == 'I':
        return t
    if t.op == 'div' and all(x.sort == 'I' for x in t.args) and it.ctx.decide(and_(le(ZERO, t.args[0]), lt(ZERO, t.args[1]))) is True:
        return idiv(*t.args)
    raise OutOfReach('int() of a real')


@model(builtins.float)
def float_(it, v):
    return tm.to_real(num(scal(v)))


@model(builtins.abs, np.abs)
def abs_(it, v):
    return elementwise(it, lambda x: ite(le(ZERO, x), x, neg(x)), v)


@model(builtins.bool)
def bool_(it, v=False):
    return as_py(it.truth(v))


def minmax(f):
    def g(it, *a, **k):
        if k:
            raise OutOfReach('min/max with options')
        if len(a) == 1:
            a = it.iterate(a[0])
            if isinstance(a, SIter):
                raise OutOfReach('min/max of a symbolic sequence')
        r = a[0]
        for x in a[1:]:
            r = as_py(f(scal(r), scal(x)))
        return r
    return g


TABLE[builtins.min] = minmax(mint)
TABLE[builtins.max] = minmax(maxt)
TABLE[np.minimum] = lambda it, a, b: elementwise(it, mint, a, b)
TABLE[np.maximum] = lambda it, a, b: elementwise(it, maxt, a, b)


def _isinst(it, v, c):
    v = it.force(v)
    if isinstance(c, tuple):
        return any(_isinst(it, v, x) for x in c)
    if isinstance(v, Obj):
        return issubclass(v.cls, c)
    if isinstance(v, T):
        if v.sort == 'I':
            return c in (int, object)
        if v.sort == 'R':
            return c in (float, np.float64, np.floating, np.number, object)
        if v.sort == 'B':
            return c in (bool, int, object)
        raise OutOfReach('isinstance of opaque')
    if isinstance(v, Arr):
        if v.kind == 'np':
            return c in (np.ndarray, object)
        import casadi as cs
        return issubclass({'MX': cs.MX, 'DM': cs.DM, 'SX': cs.SX}[v.kind], c)
    if isinstance(v, Opq):
        k = v.attrs.get('__class__')
        if k is not None:
            return issubclass(k, c)
        raise OutOfReach('isinstance of opaque')
    if isinstance(v, Poly):
        return c is np.poly1d
    if isinstance(v, (Closure, BoundMethod, Model_)):
        import collections.abc
        return c in (collections.abc.Callable, object)
    if isinstance(v, Rec):
        if '__isinstance__' in v.spec:
            return v.spec['__isinstance__'](it, v, c)
        if v.cls is None:
            raise OutOfReach('isinstance of %s' % v.name)
        return issubclass(v.cls, c)
    if isinstance(v, SDct):
        return c in (dict, object)
    if isinstance(v, Lst):
        return c in (list, object)
    if isinstance(v, Dct):
        return c in (dict, object)
    return isinstance(v, c)


@model(builtins.isinstance, always=True)
def isinstance_(it, v, c):
    return _isinst(it, v, c)


@model(builtins.getattr, always=True)
def getattr_(it, v, name, *d):
    from .values import PyRaise
    try:
        return it.getattr(v, name)
    except PyRaise as e:
        if d and e.etype is AttributeError:
            return d[0]
        raise


@model(builtins.hasattr, always=True)
def hasattr_(it, v, name):
    try:
        it.getattr(v, name)
        return True
    except PyRaise as e:
        if e.etype is AttributeError:
            return False
        raise


@model(builtins.setattr, always=True)
def setattr_(it, v, name, x):
    it.setattr(v, name, x)


@model(builtins.callable, always=True)
def callable_(it, v):
    if isinstance(v, (Closure, BoundMethod, Model_, Poly)):
        return True
    if isinstance(v, Opq):
        return '__call__' in v.attrs
    if isinstance(v, Rec):
        return '__call__' in v.spec
    if isinstance(v, Obj):
        return it.class_attr(v.cls, '__call__') is not None
    return callable(v)


@model(builtins.type, always=True)
def type_(it, v):
    if isinstance(v, Obj):
        return v.cls
    if is_symbolic(v):
        raise OutOfReach('type of symbolic value')
    return list if isinstance(v, Lst) else dict if isinstance(v, Dct) else type(v)


TABLE[builtins.str] = lambda it, *a: formatted(a[0], 's') if a else ''
TABLE[builtins.repr] = lambda it, *a: formatted(a[0], 'r')
TABLE[builtins.print] = lambda it, *a, **k: None


@model(str.format)
def str_format(it, s, *a, **k):
    import string
    if not isinstance(s, str):
        raise OutOfReach('format of an unknown text')
    out, n = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if '.' in field or '[' in field or '{' in spec:
            raise OutOfReach('format %r' % s)
        if field == '':
            field, n = str(n), n + 1
        try:
            x = a[int(field)] if field.isdigit() else k[field]
        except (IndexError, KeyError) as e:
            raise PyRaise(type(e), e.args)
        out.append(formatted(x, conv, spec))
    return text(*out)


# ------------------------------------------------------------------ numpy constructors
def shp(it, s):
    if isinstance(s, (tuple, list)):
        return tuple(scal(x) for x in s)
    return (scal(s),)


def floats(dtype):
    if dtype not in (float, np.float64, 'float', 'float64', 'd'):
        raise OutOfReach('arrays of numbers of another type')


@model(np.zeros, always=True)
def zeros(it, s, dtype=None):
    if dtype is not None:
        floats(dtype)
    return Arr(shp(it, s), lambda *i: R(0))


@model(np.empty, always=True)
def empty(it, s, dtype=None):
    if dtype is not None:
        floats(dtype)
    name = 'uninit%d' % fresh('u').id
    return Arr(shp(it, s), lambda *i: app(name, *i))


@model(np.ones, always=True)
def ones(it, s, dtype=None):
    if dtype is not None:
        floats(dtype)
    return Arr(shp(it, s), lambda *i: R(1))


@model(np.full, always=True)
def full(it, s, v, dtype=None):
    if dtype is not None:
        floats(dtype)
    t = scal(v)
    return Arr(shp(it, s), lambda *i: t)


@model(np.zeros_like)
def zeros_like(it, a, dtype=None):
    a = asarr(it, a)
    floats(dtype)
    return Arr(a.shape, lambda *i: R(0))


@model(np.ones_like)
def ones_like(it, a, dtype=None):
    a = asarr(it, a)
    floats(dtype)
    return Arr(a.shape, lambda *i: R(1) if a.body.sort == 'R' else ONE)


@model(np.eye, np.identity, always=True)
def eye(it, n, m=None):
    n = scal(n)
    return Arr((n, n if m is None else scal(m)), lambda i, j: ite(eq(i, j), R(1), R(0)))


@model(np.diag)
def diag(it, a):
    a = asarr(it, a)
    if a.ndim == 1:
        return Arr((a.shape[0],) * 2, lambda i, j: ite(eq(i, j), a.at(i), R(0)))
    it.oblige('square', eq(a.shape[0], a.shape[1]))
    return Arr((a.shape[0],), lambda i: a.at(i, i))


@model(np.arange)
def arange(it, *a, dtype=None):
    if dtype is not None:
        floats(dtype)
    a = [scal(x) for x in a]
    lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
    if lo.sort == hi.sort == st.sort == 'I' and st is ONE:
        n = sub(hi, lo)
        if it.ctx.decide(le(ZERO, n)) is not True:
            n = maxt(n, ZERO)
        return Arr((n,), lambda i: add(lo, i) if dtype is None else tm.to_real(add(lo, i)))
    if st.sort == 'I' and lo.sort == hi.sort == 'I' and isconst(st) and st.args[0] == -1:
        n = sub(lo, hi)
        if it.ctx.decide(le(ZERO, n)) is not True:
            n = maxt(n, ZERO)
        return Arr((n,), lambda i: sub(lo, i))
    # real step: ceil((hi - lo) / step) points
    it.oblige('arange-step-positive', lt(ZERO, st))
    q = div(tm.to_real(sub(hi, lo)), st)
    c = app('ceil', q, sort='I')
    it.ctx = it.ctx + [le(q, c), lt(c, add(q, 1))]
    if it.ctx.decide(le(ZERO, c)) is not True:
        c = maxt(c, ZERO)
    return Arr((c,), lambda i: add(tm.to_real(lo), mul(i, st)))


@model(np.linspace)
def linspace(it, a, b, num=50, endpoint=True):
    a, b, n = scal(a), scal(b), scal(num)
    d = sub(n, 1) if endpoint else n
    it.oblige('division-by-nonzero', ne(d, 0))
    return Arr((n,), lambda i: add(tm.to_real(a), mul(i, div(tm.to_real(sub(b, a)), d))))


@model(np.array, np.asarray, np.ascontiguousarray, np.asfarray if hasattr(np, 'asfarray') else 'asfarray')
def array(it, v, dtype=None, copy=None, ndmin=0):
    if dtype is not None:
        floats(dtype)
    if is_cs(v):
        v = Arr(v.shape, lambda *i: v.at(*i))
    a = asarr(it, v)
    if isinstance(a, Filt):
        return a
    if dtype in (float, np.float64, 'float'):
        return Arr(a.shape, lambda *i: tm.to_real(num(a.at(*i))))
    r = Arr(a.shape, lambda *i: a.at(*i))
    if ndmin == 2:
        return atleast_2d(it, r)
    return r


@model(np.copy)
def copy_(it, v):
    return array(it, v)


@model(np.atleast_1d)
def atleast_1d(it, v):
    a = asarr(it, v)
    if isinstance(a, Filt) or a.ndim >= 1:
        return a
    return Arr((1,), lambda i: a.at())


@model(np.atleast_2d)
def atleast_2d(it, v):
    if isinstance(v, Cat):
        if v.ndim == 2:
            return v
        e = v.elem
        return Cat(v.n, v.var, Arr((1, e.shape[0]), lambda i, j: e.at(j)))
    a = asarr(it, v)
    if a.ndim >= 2:
        return a
    if a.ndim == 1:
        return Arr((ONE, a.shape[0]), lambda i, j: a.at(j))
    return Arr((ONE, ONE), lambda i, j: a.at())


# ------------------------------------------------------------------ numpy queries
@model(np.ndim)
def ndim(it, v):
    a = asarr(it, v)
    return 1 if isinstance(a, Filt) else a.ndim


@model(np.shape)
def shape(it, v):
    return tuple(as_py(s) for s in asarr(it, v).shape)


@model(np.size)
def size(it, v, axis=None):
    a = asarr(it, v)
    if axis is not None:
        return as_py(a.shape[axis])
    return as_py(mul(ONE, *a.shape))


TABLE[('attr', Arr, 'shape')] = lambda it, a: tuple(as_py(s) for s in a.shape)
TABLE[('attr', Arr, 'size')] = lambda it, a: as_py(mul(ONE, *a.shape))
TABLE[('attr', Arr, 'ndim')] = lambda it, a: a.ndim
TABLE[('attr', T, 'ndim')] = lambda it, a: 0
TABLE[('attr', T, 'size')] = lambda it, a: 1
TABLE[('attr', T, 'shape')] = lambda it, a: ()
TABLE[('attr', Arr, 'T')] = lambda it, a: transpose(it, a)
TABLE[('attr', Arr, 'copy')] = lambda it, a: Model_(lambda it: a.copy())
TABLE[('attr', Arr, 'transpose')] = lambda it, a: Model_(lambda it: transpose(it, a))
TABLE[('attr', Arr, 'flat')] = lambda it, a: ravel(it, a)
def dtype_(it, a):
    if a.body.sort == 'R':
        raise OutOfReach('type of the elements of an array')     # numbers given may be integers
    return np.dtype({'I': int, 'B': bool}[a.body.sort])


TABLE[('attr', Arr, 'dtype')] = dtype_


def method(name, fn):
    TABLE[('attr', Arr, name)] = lambda it, a: Model_(lambda it, *x, **k: fn(it, a, *x, **k))


@model(np.transpose)
def transpose(it, a):
    if is_cs(a):
        return it.table_call('cs_transpose', [a], {})
    a = asarr(it, a)
    if a.ndim < 2:
        return a
    if a.ndim != 2:
        raise OutOfReach('transpose of %d-d array' % a.ndim)
    r = Arr((a.shape[1], a.shape[0]), lambda i, j: a.at(j, i))
    return r.view_of(a) if a.kind == 'np' else r


@model(np.ravel)
def ravel(it, a):
    a = asarr(it, a)
    if a.ndim == 1:
        return a
    if a.ndim == 2:
        n, m = a.shape
        if isconst(n) and n.args[0] == 1:
            return Arr((m,), lambda i: a.at(ZERO, i))
        if isconst(m) and m.args[0] == 1:
            return Arr((n,), lambda i: a.at(i, ZERO))
        return Arr((mul(n, m),), lambda i: a.at(idiv(i, m), imod(i, m)))
    raise OutOfReach('ravel')


def astype(it, a, t):
    if t in (float, np.float64, 'float'):
        return Arr(a.shape, lambda *i: tm.to_real(num(a.at(*i))))
    if t in (int,) and a.body.sort in 'IB':
        return Arr(a.shape, lambda *i: num(a.at(*i)))
    raise OutOfReach('astype')


method('astype', astype)
method('ravel', ravel)
method('flatten', ravel)


# ------------------------------------------------------------------ reductions
def reduce_(big, zero, it, a, axis=None, **kw):
    if kw:
        raise OutOfReach('reduction with options %s' % list(kw))
    a = asarr(it, a)
    if isinstance(a, Filt):
        if axis not in (None, 0):
            raise OutOfReach('axis of filtered array')
        return big(a.var, ZERO, a.n, ite(a.cond, num(a.elem), zero))
    if isinstance(axis, int) and axis < 0:
        axis += a.ndim
    if axis is None:
        vs = [fresh('s') for _ in a.shape]
        t = num(a.at(*vs))
        for v, s in reversed(list(zip(vs, a.shape))):
            t = big(v, ZERO, s, t)
        return t
    if not isinstance(axis, int):
        raise OutOfReach('axis')
    v = fresh('s')
    s = a.shape[axis]
    return ret(Arr(a.shape[:axis] + a.shape[axis + 1:],
                   lambda *i: big(v, ZERO, s, num(a.at(*(i[:axis] + (v,) + i[axis:]))))))


@model(np.sum)
def np_sum(it, a, axis=None, **kw):
    if is_cs(a):
        raise OutOfReach('np.sum of casadi matrix')
    return reduce_(sum_, R(0), it, a, axis, **kw)


@model(np.prod)
def np_prod(it, a, axis=None, **kw):
    return reduce_(prod_, R(1), it, a, axis, **kw)


def _quant(q):
    def f(it, a, axis=None):
        if axis is not None:
            raise OutOfReach('any/all with axis')
        a = asarr(it, a)
        if isinstance(a, Filt):
            e = it.truth(a.elem)
            return as_py(q(a.var, ZERO, a.n, and_(a.cond, e) if q is exists else implies(a.cond, e)))
        vs = [fresh('s') for _ in a.shape]
        t = it.truth(a.at(*vs))
        for v, s in reversed(list(zip(vs, a.shape))):
            t = q(v, ZERO, s, t)
        return as_py(t)
    return f


TABLE[np.any] = _quant(exists)
TABLE[np.all] = _quant(forall)
method('any', _quant(exists))
method('all', _quant(forall))
method('sum', np_sum)
method('prod', np_prod)


@model(np.count_nonzero)
def count_nonzero(it, a):
    a = asarr(it, a)
    if a.ndim != 1:
        raise OutOfReach('count_nonzero')
    v = fresh('s')
    return sum_(v, ZERO, a.shape[0], tm.b2n(it.truth(a.at(v))))


@model(np.cumsum)
def cumsum(it, a):
    a = asarr(it, a)
    if a.ndim != 1:
        raise OutOfReach('cumsum')
    v = fresh('s')
    return Arr(a.shape, lambda i: sum_(v, ZERO, add(i, 1), a.at(v)))


@model(np.diff)
def np_diff(it, a):
    a = asarr(it, a)
    if a.ndim != 1:
        raise OutOfReach('diff')
    n = sub(a.shape[0], 1)
    if it.ctx.decide(le(ZERO, n)) is not True:
        n = maxt(n, ZERO)
    return Arr((n,), lambda i: sub(a.at(add(i, 1)), a.at(i)))


@model(np.dot, np.matmul)
def dot(it, a, b):
    if is_cs(a) or is_cs(b):
        if not (is_cs(a) and a.kind == 'DM' or is_cs(b) and b.kind == 'DM') and (is_cs(a) and a.kind != 'DM' or is_cs(b) and b.kind != 'DM'):
            raise OutOfReach('np.dot of symbolic casadi matrices')
    a, b = asarr(it, a), asarr(it, b)
    if a.ndim == 0 or b.ndim == 0:
        return binop(it, 'mult', a, b)
    k = fresh('k')
    inner = a.shape[-1]
    other = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if inner is not other:
        it.oblige('dot-shapes-match', eq(inner, other))
    if a.ndim == 1 and b.ndim == 1:
        return sum_(k, ZERO, inner, mul(num(a.at(k)), num(b.at(k))))
    if a.ndim == 2 and b.ndim == 1:
        return Arr((a.shape[0],), lambda i: sum_(k, ZERO, inner, mul(num(a.at(i, k)), num(b.at(k)))))
    if a.ndim == 1 and b.ndim == 2:
        return Arr((b.shape[1],), lambda j: sum_(k, ZERO, inner, mul(num(a.at(k)), num(b.at(k, j)))))
    if a.ndim == 2 and b.ndim == 2:
        return Arr((a.shape[0], b.shape[1]), lambda i, j: sum_(k, ZERO, inner, mul(num(a.at(i, k)), num(b.at(k, j)))))
    raise OutOfReach('dot of %d-d arrays' % max(a.ndim, b.ndim))


method('dot', dot)


@model(np.outer)
def outer(it, a, b):
    a, b = asarr(it, a), asarr(it, b)
    return Arr((a.shape[0], b.shape[0]), lambda i, j: mul(a.at(i), b.at(j)))


@model(np.searchsorted)
def searchsorted(it, a, v, side='left'):
    a = asarr(it, a)
    i = fresh('i')
    it.oblige('searchsorted-on-sorted', forall(i, ZERO, sub(a.shape[0], 1), le(a.at(i), a.at(add(i, 1)))))
    if side not in ('left', 'right'):
        raise PyRaise(ValueError)

    def f(x):
        j = fresh('j')
        return count(j, ZERO, a.shape[0], le(a.at(j), x) if side == 'right' else lt(a.at(j), x))
    x = asarr(it, v)
    return ret(Arr(x.shape, lambda *i: f(x.at(*i))))


@model(np.clip)
def clip(it, x, lo, hi):
    return elementwise(it, lambda a, l, h: mint(maxt(a, l), h), x, lo, hi)


@model(np.where)
def where(it, c, *ab):
    if len(ab) != 2:
        raise OutOfReach('np.where with one argument')
    return elementwise(it, lambda x, a, b: ite(x if x.sort == 'B' else ne(x, 0), num(a), num(b)), c, *ab)


@model(np.delete)
def delete(it, a, i, axis=None):
    a = asarr(it, a)
    i = scal(i)
    if a.ndim != 1 or not isinstance(lift(i), T) or lift(i).sort != 'I' or axis not in (None, 0):
        raise OutOfReach('np.delete')
    k = it.norm_index(i, a.shape[0])
    v = fresh('m')
    return Filt(a.shape[0], v, ne(v, k), a.at(v))


@model(np.flip)
def flip(it, a, axis=None):
    a = asarr(it, a)
    if a.ndim == 1:
        return Arr(a.shape, lambda i: a.at(sub(sub(a.shape[0], 1), i)))
    raise OutOfReach('flip')


@model(np.repeat)
def repeat(it, a, n, axis=None):
    a, n = asarr(it, a), scal(n)
    if a.ndim == 0:
        return Arr((n,), lambda i: a.at())
    if a.ndim == 1:
        return Arr((mul(a.shape[0], n),), lambda i: a.at(idiv(i, n)))
    raise OutOfReach('repeat')


@model(np.tile)
def tile(it, a, n):
    a = asarr(it, a)
    if a.ndim == 1 and isinstance(n, NUM):
        return Arr((mul(a.shape[0], scal(n)),), lambda i: a.at(imod(i, a.shape[0])))
    raise OutOfReach('tile')


@model(np.append)
def append(it, a, b, axis=None):
    if axis is not None:
        raise OutOfReach('append with axis')
    a, b = ravel(it, atleast_1d(it, a)), ravel(it, atleast_1d(it, b))
    return cat1(it, a, b)


def cat1(it, a, b):
    n = a.shape[0]
    real = 'R' in (a.body.sort, b.body.sort)
    cv = tm.to_real if real else (lambda x: x)
    return Arr((add(n, b.shape[0]),), lambda i: ite(lt(i, n), cv(a.at(i)), cv(b.at(sub(i, n)))))


def concat(it, l, axis):
    """concatenate a list (possibly with segments) of arrays along an axis"""
    if isinstance(l, (tuple, list)) and not isinstance(l, Lst):
        l = Lst(l)
    if isinstance(l, Arr):
        l = list_of(it, l)
    if not isinstance(l, Lst):
        s = it.iterate(l)
        if isinstance(s, SIter):
            k = fresh('k')
            l = Lst([Seg(s.n, k, [s.at(k)])])
        else:
            l = Lst(s)
    parts = []
    for x in l:
        if isinstance(x, FSeg):
            raise OutOfReach('concatenation of a filtered list')
        if isinstance(x, Seg):
            es = [fix(it, e, axis) for e in x.elems]
            if len(es) > 1:
                if axis == 'h':
                    es = [cat_list(it, [(None, e) for e in es], axis_of(es[0], axis))]
                else:
                    es = [cat_list(it, [(None, e) for e in es], 0)]
            parts.append((x, es[0]))
        else:
            parts.append((None, fix(it, x, axis)))
    if not parts:
        raise PyRaise(ValueError)
    ax = axis_of(parts[0][1], axis)
    return cat_list(it, parts, ax)


def list_of(it, a):
    k = fresh('k')
    return Lst([Seg(a.shape[0], k, [it.row(a, k)])])


def fix(it, e, axis):
    if axis == 'h':
        return atleast_1d(it, nparr(e))
    if axis == 'v':
        return atleast_2d(it, nparr(e))
    return asarr(it, e)


def nparr(e):
    if is_cs(e) and e.kind == 'DM':
        return Arr(e.shape, lambda *i: e.at(*i))
    if is_cs(e):
        raise OutOfReach('numpy stacking of symbolic casadi matrices')
    return e


def axis_of(e, axis):
    if axis == 'h':
        return 0 if e.ndim == 1 else 1
    if axis == 'v':
        return 0
    return axis + e.ndim if axis < 0 else axis


def cat_list(it, parts, ax):
    """parts: list of (Seg or None, array)"""
    if len(parts) == 1 and parts[0][0] is not None and parts[0][0].var in fv(parts[0][1].shape[ax]):
        s, e = parts[0]
        if ax == e.ndim - 1:
            return Cat(s.n, s.var, e)
        raise OutOfReach('ragged concatenation')
    e0 = parts[0][1]
    off = ZERO
    pieces = []
    real = any(e.body.sort == 'R' for _, e in parts)
    for s, e in parts:
        if e.ndim != e0.ndim:
            raise PyRaise(ValueError)
        for d in range(e.ndim):
            if d != ax and e.shape[d] is not e0.shape[d]:
                it.oblige('concat-shapes-match', eq(e.shape[d], e0.shape[d]))
        w = e.shape[ax]
        if s is not None:
            if s.var in fv(w):
                raise OutOfReach('ragged concatenation')
            total = mul(s.n, w)
        else:
            total = w
        pieces.append((off, total, w, s, e))
        off = add(off, total)
    for d in range(e0.ndim):
        if d != ax and parts[0][0] is not None and parts[0][0].var in fv(e0.shape[d]):
            raise OutOfReach('ragged concatenation')
    sh = tuple(off if d == ax else e0.shape[d] for d in range(e0.ndim))

    def fn(*idx):
        i = idx[ax]

        def val(p):
            o, total, w, s, e = p
            r = sub(i, o)
            if s is None:
                v = e.at(*[r if d == ax else x for d, x in enumerate(idx)])
            else:
                if isconst(w) and w.args[0] == 1:
                    q, m = r, ZERO
                else:
                    q, m = idiv(r, w), imod(r, w)
                v = subst(e.at(*[m if d == ax else x for d, x in enumerate(idx)]), {s.var: q})
            return tm.to_real(num(v)) if real else v
        t = val(pieces[-1])
        for p in reversed(pieces[:-1]):
            t = ite(lt(i, add(p[0], p[1])), val(p), t)
        return t
    return Arr(sh, fn)


@model(np.hstack, always=True)
def hstack(it, l):
    return concat(it, l, 'h')


@model(np.vstack, always=True)
def vstack(it, l):
    return concat(it, l, 'v')


@model(np.concatenate, always=True)
def concatenate(it, l, axis=0):
    return concat(it, l, axis)


@model(np.stack)
def np_stack(it, l, axis=0):
    a = asarr(it, l)
    if axis == 0:
        return a
    if a.ndim == 2 and axis in (1, -1):
        return Arr((a.shape[1], a.shape[0]), lambda i, j: a.at(j, i))
    raise OutOfReach('stack axis')


@model(np.column_stack)
def column_stack(it, l):
    l2 = Lst([Seg(x.n, x.var, [colv(it, e) for e in x.elems]) if isinstance(x, Seg) else colv(it, x) for x in (l if isinstance(l, (Lst, tuple, list)) else list_of(it, l))])
    return concat(it, l2, 1)


def colv(it, e):
    e = asarr(it, e)
    return e if e.ndim == 2 else Arr((e.shape[0], 1), lambda i, j: e.at(i))


@model(np.cos)
def cos(it, v):
    return elementwise(it, lambda x: app('cos', x), v)


@model(np.sin)
def sin(it, v):
    return elementwise(it, lambda x: app('sin', x), v)


@model(np.square)
def square(it, v):
    return elementwise(it, lambda x: mul(x, x), v)


TABLE[np.power] = lambda it, a, b: binop(it, 'pow', a, b)
TABLE[np.multiply] = lambda it, a, b: binop(it, 'mult', a, b)
TABLE[np.add] = lambda it, a, b: binop(it, 'add', a, b)
TABLE[np.subtract] = lambda it, a, b: binop(it, 'sub', a, b)
TABLE[np.divide] = lambda it, a, b: binop(it, 'div', a, b)
TABLE[np.equal] = lambda it, a, b: compare(it, 'Eq', a, b)
TABLE[np.not_equal] = lambda it, a, b: compare(it, 'NotEq', a, b)
TABLE[np.logical_not] = lambda it, a: unary(it, 'invert', a)
TABLE[np.reciprocal] = lambda it, a: binop(it, 'div', 1, a)


@model(np.subtract.outer)
def sub_outer(it, a, b):
    a, b = asarr(it, a), asarr(it, b)
    return Arr(a.shape + b.shape, lambda *i: sub(a.at(*i[:a.ndim]), b.at(*i[a.ndim:])))


@model(np.linalg.solve)
def linsolve(it, A, B):
    """assumed: returns the unique solution of A Y = B"""
    A, B = asarr(it, A), asarr(it, B)
    if A.ndim != 2 or B.ndim not in (1, 2):
        raise OutOfReach('solve')
    it.oblige('square', eq(A.shape[0], A.shape[1]))
    it.oblige('dot-shapes-match', eq(A.shape[0], B.shape[0]))
    for rule in it.solve_rules:
        r = rule(it, A, B)
        if r is not None:
            return r
    raise OutOfReach('linear system of unknown form')


@model(np.fill_diagonal)
def fill_diagonal(it, a, v):
    it.check_mut(a)
    t = scal(v) if not (isinstance(v, (Arr, np.ndarray)) and asarr(it, v).ndim == 1) else None
    w = None if t is not None else asarr(it, v)
    vs = tuple(fresh('x') for _ in a.shape)
    old = a.at(*vs)
    a.vars, a.body = vs, ite(eq(vs[0], vs[1]), t if t is not None else w.at(vs[0]), old)


# ------------------------------------------------------------------ indexing
def norm(it, v):
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, Arr) and v.ndim == 0:
        return v.at()
    return v


def parse_index(it, a, idx):
    """-> list of per-dimension selectors ('int', t) | ('slice', lo, n) | ('rev', n) | ('new',) | ('fancy', Arr) | ('mask', Arr)"""
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = [norm(it, x) for x in idx]
    real = [x for x in idx if x is not None and x is not Ellipsis]
    if Ellipsis in [x for x in idx if not isinstance(x, (T, Arr, np.ndarray))]:
        q = [i for i, x in enumerate(idx) if x is Ellipsis][0]
        idx = idx[:q] + [slice(None)] * (a.ndim - len(real)) + idx[q + 1:]
    else:
        idx = idx + [slice(None)] * (a.ndim - len(real))
    out = []
    d = 0
    for x in idx:
        if x is None:
            out.append(('new',))
            continue
        if d >= a.ndim:
            raise PyRaise(IndexError)
        n = a.shape[d]
        if isinstance(x, slice):
            if x.step is not None and x.step != 1:
                if x.step == -1 and x.start is None and x.stop is None:
                    out.append(('rev', n))
                else:
                    raise OutOfReach('slice step')
            else:
                lo, hi = it.slice_bounds(x, n)
                out.append(('slice', lo, sub(hi, lo)))
        elif isinstance(x, NUM) and not isinstance(x, (bool, float)):
            out.append(('int', it.norm_index(lift(x), n)))
        elif isinstance(x, (Arr, np.ndarray, Lst, SIter, range)):
            if isinstance(x, (SIter, range)):
                x = it.table_call(builtins.list, [x], {})
            f = asarr(it, x)
            if f.ndim != 1:
                raise OutOfReach('index array of dimension %d' % f.ndim)
            if f.body.sort == 'B':
                out.append(('mask', f))
            else:
                v = fresh('d')
                it.oblige('index-in-range', and_(le(ZERO, f.at(v)), lt(f.at(v), n)), it.ctx.rng(v, ZERO, f.shape[0]))
                out.append(('fancy', f))
        else:
            raise OutOfReach('index %r' % (x,))
        d += 1
    return out


@model('getitem')
def getitem(it, a, idx):
    if isinstance(a, Arr) and a.kind != 'np':
        return it.table_call('cs_getitem', [a, idx], {})
    if isinstance(a, (np.ndarray,)):
        a = to_arr(a)
    if isinstance(a, Filt) or not isinstance(a, Arr):
        raise OutOfReach('index of %s' % type(a).__name__)
    sel = parse_index(it, a, idx)
    if any(s[0] == 'mask' for s in sel):
        if len(sel) == 1 and a.ndim == 1:
            f = sel[0][1]
            it.oblige('mask-length', eq(f.shape[0], a.shape[0]))
            v = fresh('m')
            return Filt(a.shape[0], v, f.at(v), a.at(v))
        raise OutOfReach('mask index')
    if sum(s[0] == 'fancy' for s in sel) > 1:
        raise OutOfReach('several index arrays')
    if any(s[0] == 'fancy' for s in sel) and any(s[0] == 'int' for s in sel) and a.ndim > 2:
        raise OutOfReach('mixed advanced indexing')
    shape = []
    for s in sel:
        if s[0] == 'slice':
            shape.append(s[2])
        elif s[0] == 'rev':
            shape.append(s[1])
        elif s[0] == 'new':
            shape.append(ONE)
        elif s[0] == 'fancy':
            shape.append(s[1].shape[0])

    def fn(*i):
        out = []
        q = 0
        for s in sel:
            if s[0] == 'int':
                out.append(s[1])
                continue
            x = i[q]
            q += 1
            if s[0] == 'slice':
                out.append(add(s[1], x))
            elif s[0] == 'rev':
                out.append(sub(sub(s[1], 1), x))
            elif s[0] == 'fancy':
                out.append(s[1].at(x))
        return a.at(*out)
    r = Arr(shape, fn)
    if r.ndim and not any(s[0] == 'fancy' for s in sel):
        r.view_of(a)
    return ret(r)


@model('setitem')
def setitem(it, a, idx, v):
    if not isinstance(a, Arr):
        raise OutOfReach('item assignment on %s' % type(a).__name__)
    if a.kind != 'np':
        return it.table_call('cs_setitem', [a, idx, v], {})
    it.check_mut(a)
    sel = parse_index(it, a, idx)
    if any(s[0] in ('new', 'fancy', 'mask', 'rev') for s in sel):
        if len(sel) == 1 and sel[0][0] == 'mask' and isinstance(v, NUM):
            f = sel[0][1]
            vs = tuple(fresh('x') for _ in a.shape)
            a.body = ite(f.at(vs[0]), coerce(a, num(lift(v))), a.at(*vs))
            a.vars = vs
            return
        raise OutOfReach('advanced index assignment')
    if a.body.sort != 'R':
        vv = asarr(it, v)
        if vv.body.sort == 'R':
            raise OutOfReach('assignment of reals into an integer array')
    tshape = [s[2] for s in sel if s[0] == 'slice']
    w = asarr(it, v)
    if isinstance(w, Filt):
        raise OutOfReach('assignment of filtered array')
    wshape = list(w.shape)
    while len(wshape) > len(tshape) and isconst(wshape[0]) and wshape[0].args[0] == 1:
        wshape.pop(0)
    lead = w.ndim - len(wshape)
    if len(wshape) > len(tshape):
        raise PyRaise(ValueError)
    for s, t in zip(reversed(wshape), reversed(tshape)):
        if not (isconst(s) and s.args[0] == 1) and s is not t:
            it.oblige('assignment-shapes-match', eq(s, t))
    vs = tuple(fresh('x') for _ in a.shape)
    conds, pos = [], []
    for s, x in zip(sel, vs):
        if s[0] == 'int':
            conds.append(eq(x, s[1]))
        else:
            lo, n = s[1], s[2]
            if lo is not ZERO:
                conds.append(le(lo, x))
            if not (lo is ZERO and n is a.shape[vs.index(x)]):
                conds.append(lt(x, add(lo, n)))
            pos.append(sub(x, lo))
    pos = pos[len(pos) - len(wshape):] if wshape else []
    widx = [ZERO] * lead + [ZERO if isconst(s) and s.args[0] == 1 else p for s, p in zip(wshape, pos)]
    old = a.at(*vs)
    new = w.at(*widx)
    a.body = ite(and_(TRUE, *conds), coerce(a, num(new)), old)
    a.vars = vs


def coerce(a, t):
    return tm.to_real(t) if a.body.sort == 'R' else t
