"""Trusted models of the casadi functions used by the code.

A casadi matrix is a two-dimensional Arr of kind 'MX', 'SX' or 'DM' whose elements are real terms.  Symbols are
uninterpreted functions of the position, so an expression stands for its value under every assignment of its
symbols.  Structural sparsity is dropped (structural zeros are zeros)."""
import casadi as cs
import numpy as np
from .term import *
from . import term as tm
from .values import *
from .interp import to_arr, Star
from .models_np import TABLE as NP, asarr, num, is_cs, scal, NUM, cat_list

TABLE = {}


def model(*keys, always=False):
    def deco(f):
        for k in keys:
            g = f
            if always:
                g = lambda it, *a, _f=f, **kw: _f(it, *a, **kw)
                g.always = True
            TABLE[k] = g
        return f
    return deco


def csarr(it, v):
    """any matrix-like value as a casadi matrix"""
    if is_cs(v):
        return v
    if isinstance(v, Obj):
        f = it.class_attr(v.cls, '__MX__')
        if f is not None:
            return csarr(it, it.call(f, [v], {}))
    if isinstance(v, Opq) and 'cat' in v.attrs:
        return csarr(it, v.attrs['cat'])
    if isinstance(v, (cs.DM, np.ndarray)) and not isinstance(v, cs.MX):
        v = to_arr(np.array(v, dtype=float))
    elif isinstance(v, cs.MX):
        raise OutOfReach('concrete casadi expression')
    a = asarr(it, v)
    if a.ndim == 0:
        return Arr((ONE, ONE), lambda i, j: tm.to_real(num(a.at())), kind='DM')
    if a.ndim == 1:
        return Arr((a.shape[0], ONE), lambda i, j: tm.to_real(num(a.at(i))), kind='DM')
    if a.ndim == 2:
        return Arr(a.shape, lambda i, j: tm.to_real(num(a.at(i, j))), kind='DM')
    raise OutOfReach('casadi matrix from a %d-d array' % a.ndim)


def join(*arrs):
    ks = [a.kind for a in arrs]
    for k in ('MX', 'SX'):
        if k in ks:
            return k
    return 'DM'


def one(s):
    return isconst(s) and s.args[0] == 1


def is_scalar_shape(a):
    return one(a.shape[0]) and one(a.shape[1])


# ------------------------------------------------------------------ construction
def dims(it, a):
    """(n), (n, m), ((n, m)) -> (n, m)"""
    a = list(a)
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = list(a[0])
    if not a:
        return ONE, ONE
    if len(a) == 1:
        a.append(1)
    if len(a) != 2:
        raise OutOfReach('casadi dimensions')
    r, c = [scal(x) for x in a]
    for d in (r, c):
        if d.sort != 'I':
            raise PyRaise(NotImplementedError)
        it.oblige('casadi-dimension', le(ZERO, d))
    return r, c


@model(cs.MX.sym, always=True)
def mx_sym(it, name, *a, kind='MX'):
    if not isinstance(name, str):
        raise OutOfReach('symbol name')
    sh = dims(it, a)
    k = it.syms.get(name, 0)
    it.syms[name] = k + 1
    f = 'sym:%s' % name if not k else 'sym:%s#%d' % (name, k + 1)
    r = Arr(sh, lambda i, j: app(f, i, j), kind=kind)
    r.sym = True
    return r


TABLE[cs.SX.sym] = lambda it, name, *a: mx_sym(it, name, *a, kind='SX')
TABLE[cs.SX.sym].always = True


def const_matrix(kind, v):
    def f(it, *a):
        return Arr(dims(it, a), lambda i, j: v, kind=kind)
    f.always = False
    return f


INF, NAN = app('inf'), app('nan')
for K_, C_ in (('MX', cs.MX), ('DM', cs.DM), ('SX', cs.SX)):
    for nm_, v_ in (('zeros', R(0)), ('ones', R(1)), ('inf', INF), ('nan', NAN)):
        f_ = const_matrix(K_, v_)
        f_.always = K_ != 'DM' or nm_ in ('inf', 'nan')
        TABLE[getattr(C_, nm_)] = f_

    def eye_(it, n, K_=K_):
        n = scal(n)
        return Arr((n, n), lambda i, j: ite(eq(i, j), R(1), R(0)), kind=K_)
    eye_.always = K_ == 'MX'
    TABLE[C_.eye] = eye_

    def new_(it, *a, K_=K_):
        if len(a) == 0:
            return Arr((0, 0), lambda i, j: R(0), kind=K_)
        if len(a) == 2 and all(isinstance(x, NUM) for x in a):
            return Arr(dims(it, a), lambda i, j: R(0), kind=K_)
        if len(a) == 1:
            x = csarr(it, a[0])
            if K_ == 'DM' and x.kind != 'DM':
                raise PyRaise(NotImplementedError)
            return Arr(x.shape, vars=x.vars, body=x.body, kind=K_)
        raise OutOfReach('casadi matrix constructor')
    new_.always = K_ == 'MX'
    TABLE[C_] = new_


# ------------------------------------------------------------------ elementwise
def ew(it, f, a, b, kind=None):
    a, b = csarr(it, a), csarr(it, b)
    k = kind or join(a, b)
    if is_scalar_shape(a) and not is_scalar_shape(b):
        return Arr(b.shape, lambda i, j: f(a.at(ZERO, ZERO), b.at(i, j)), kind=k)
    if is_scalar_shape(b) and not is_scalar_shape(a):
        return Arr(a.shape, lambda i, j: f(a.at(i, j), b.at(ZERO, ZERO)), kind=k)
    for x, y in zip(a.shape, b.shape):
        if x is not y:
            it.oblige('casadi-shapes-match', eq(x, y))
    return Arr(a.shape, lambda i, j: f(a.at(i, j), b.at(i, j)), kind=k)


def nonzero_all(it, b):
    b = csarr(it, b)
    i, j = fresh('d'), fresh('d')
    it.oblige('division-by-nonzero', ne(b.at(i, j), 0), it.ctx.rng(i, ZERO, b.shape[0]).rng(j, ZERO, b.shape[1]))


@model('cs_binop')
def cs_binop(it, op, a, b):
    if op in ('add', 'sub', 'mult'):
        return ew(it, {'add': add, 'sub': sub, 'mult': mul}[op], a, b)
    if op == 'div':
        nonzero_all(it, b)
        return ew(it, div, a, b)
    if op == 'matmul':
        return mtimes(it, a, b)
    raise OutOfReach('casadi operator %s' % op)


@model('cs_unary')
def cs_unary(it, op, v):
    if op == 'neg':
        return Arr(v.shape, lambda i, j: neg(v.at(i, j)), kind=v.kind)
    raise OutOfReach('casadi unary operator')


@model('cs_compare')
def cs_compare(it, op, a, b):
    raise OutOfReach('comparison of casadi matrices')


@model('cs_transpose', cs.transpose)
def cs_transpose(it, a):
    a = csarr(it, a)
    return Arr((a.shape[1], a.shape[0]), lambda i, j: a.at(j, i), kind=a.kind)


@model(cs.mtimes)
def mtimes(it, *args):
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = list(args[0])
    if len(args) > 2:
        return mtimes(it, mtimes(it, *args[:-1]), args[-1])
    a, b = [csarr(it, x) for x in args]
    if is_scalar_shape(a) or is_scalar_shape(b):
        return ew(it, mul, a, b)
    if a.shape[1] is not b.shape[0]:
        it.oblige('product-shapes-match', eq(a.shape[1], b.shape[0]))
    k = fresh('k')
    return Arr((a.shape[0], b.shape[1]), lambda i, j: sum_(k, ZERO, a.shape[1], mul(a.at(i, k), b.at(k, j))), kind=join(a, b))


@model(cs.kron)
def kron(it, a, b):
    a, b = csarr(it, a), csarr(it, b)
    n, m = b.shape

    def dv(i, n):
        return (i, ZERO) if one(n) else (idiv(i, n), imod(i, n))

    def f(i, j):
        (p, q), (r, s) = dv(i, n), dv(j, m)
        return mul(a.at(p, r), b.at(q, s))
    return Arr((mul(a.shape[0], n), mul(a.shape[1], m)), f, kind=join(a, b))


@model(cs.diagcat)
def diagcat(it, *args):
    l = star_list(it, args)
    if len(l) == 1 and isinstance(l[0], Seg) and len(l[0].elems) == 1:
        s = l[0]
        e = csarr(it, s.elems[0])
        if not is_scalar_shape(e):
            raise OutOfReach('diagcat of symbolic blocks')
        return Arr((s.n, s.n), lambda i, j: ite(eq(i, j), subst(e.at(ZERO, ZERO), {s.var: i}), R(0)), kind=e.kind)
    es = [csarr(it, x) for x in l]
    if not all(is_scalar_shape(e) for e in es):
        raise OutOfReach('diagcat of blocks')
    n = len(es)

    def f(i, j):
        t = R(0)
        for k in range(n - 1, -1, -1):
            t = ite(and_(eq(i, k), eq(j, k)), es[k].at(ZERO, ZERO), t)
        return t
    return Arr((n, n), f, kind=join(*es))


def star_list(it, args):
    if len(args) == 1 and isinstance(args[0], (list, tuple)) and not isinstance(args[0], Star):
        args = args[0]
    out = Lst()
    for a in args:
        if isinstance(a, Star):
            v = a.v
            if isinstance(v, Lst):
                out.extend(v)
            else:
                s = it.iterate(v)
                if isinstance(s, SIter):
                    k = fresh('k')
                    out.append(Seg(s.n, k, [s.at(k)]))
                else:
                    out.extend(s)
        else:
            out.append(a)
    return out


def concat(it, args, ax):
    l = star_list(it, args)
    parts = []
    for x in l:
        if isinstance(x, FSeg):
            raise OutOfReach('concatenation of a filtered list')
        if isinstance(x, Seg):
            if len(x.elems) != 1:
                raise OutOfReach('concatenation of an interleaved list')
            parts.append((x, csarr(it, x.elems[0])))
        else:
            parts.append((None, csarr(it, x)))
    if not parts:
        return Arr((1, 0) if ax else (0, 1), lambda i, j: R(0), kind='DM')
    r = cat_list(it, parts, ax)
    if isinstance(r, Cat):
        raise OutOfReach('ragged concatenation')
    r.kind = join(*[p[1] for p in parts])
    return r


def symbolic_parts(it, args):
    return all(getattr(x, 'sym', False) for x in star_list(it, args))


@model(cs.horzcat)
def horzcat(it, *args):
    return concat(it, args, 1)


@model(cs.vertcat)
def vertcat(it, *args):
    return concat(it, args, 0)


for f_, g_ in ((cs.horzcat, horzcat), (cs.vertcat, vertcat), (cs.diagcat, diagcat)):
    def h_(it, *a, g_=g_):
        return g_(it, *a)
    h_.always = any(False for _ in ())
    TABLE[f_] = h_


@model(cs.repmat)
def repmat(it, a, n=1, m=1):
    a = csarr(it, a)
    if isinstance(n, tuple):
        n, m = n
    n, m = scal(n), scal(m)
    r, c = a.shape

    def ix(i, rep, size):
        return i if one(rep) else ZERO if one(size) else imod(i, size)
    return Arr((mul(r, n), mul(c, m)), lambda i, j: a.at(ix(i, n, r), ix(j, m, c)), kind=a.kind)


@model(cs.diff)
def diff(it, a, n=1, axis=-1):
    a = csarr(it, a)
    if n != 1 or axis not in (0, 1):
        raise OutOfReach('diff')
    k = maxt(sub(a.shape[axis], 1), ZERO) if it.ctx.decide(le(1, a.shape[axis])) is not True else sub(a.shape[axis], 1)
    if axis == 1:
        return Arr((a.shape[0], k), lambda i, j: sub(a.at(i, add(j, 1)), a.at(i, j)), kind=a.kind)
    return Arr((k, a.shape[1]), lambda i, j: sub(a.at(add(i, 1), j), a.at(i, j)), kind=a.kind)


@model(cs.vec)
def vec(it, a):
    a = csarr(it, a)
    n = a.shape[0]
    return Arr((mul(n, a.shape[1]), ONE), lambda i, j: a.at(i, ZERO) if one(a.shape[1]) else a.at(imod(i, n), idiv(i, n)), kind=a.kind)


@model(cs.evalf)
def evalf(it, a):
    a = csarr(it, a)
    for f in ufs(a.body):
        if isinstance(f, str) and f.startswith('sym:'):
            raise PyRaise(RuntimeError)
    return Arr(a.shape, vars=a.vars, body=a.body, kind='DM')


@model(cs.solve)
def solve(it, A, B, *rest):
    A, B = csarr(it, A), csarr(it, B)
    it.oblige('square', eq(A.shape[0], A.shape[1]))
    it.oblige('dot-shapes-match', eq(A.shape[0], B.shape[0]))
    for rule in it.solve_rules:
        r = rule(it, A, B)
        if r is not None:
            r.kind = join(A, B)
            return r
    raise OutOfReach('linear system of unknown form')


@model(cs.inv)
def inv(it, A, *rest):
    A = csarr(it, A)
    n = A.shape[0]
    return solve(it, A, Arr((n, n), lambda i, j: ite(eq(i, j), R(1), R(0)), kind='DM'))


@model(cs.substitute)
def substitute(it, ex, v, vdef):
    single = not isinstance(ex, (list, tuple))
    if single:
        ex, v, vdef = [ex], [v], [vdef]
    m = {}
    for a, b in zip(v, vdef):
        a, b = csarr(it, a), csarr(it, b)
        if not a.sym:
            raise PyRaise(RuntimeError)
        for s, u in zip(a.shape, b.shape):
            if s is not u:
                it.oblige('substitute-shapes-match', eq(s, u))
        if a.body.op != 'app':
            raise OutOfReach('substitution of a composed symbol')
        m[a.body.args[0]] = b
    kind = 'MX'

    def one_(e):
        e = csarr(it, e)
        i, j = fresh('i'), fresh('j')
        body = subst_sym(e.at(i, j), m)
        return Arr(e.shape, lambda p, q: subst(body, {i: p, j: q}), kind=kind)
    out = Lst([one_(e) for e in ex])
    return out[0] if single else out


def subst_sym(t, m):
    """replace applications of symbol functions by the elements of matrices"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not any(f in m for f in ufs(t)):
            return t
        args = [go(a) if isinstance(a, T) else a for a in t.args]
        if t.op == 'app' and t.args[0] in m:
            r = m[t.args[0]].at(*args[1:])
        else:
            r = tm.rebuild(t, args)
        memo[t] = r
        return r
    return go(t)


# ------------------------------------------------------------------ indexing
def sel(it, x, n):
    """-> (kind, offset, length)"""
    if isinstance(x, Arr) and x.ndim == 0:
        x = x.at()
    if isinstance(x, slice):
        if x.step is not None and x.step != 1:
            raise OutOfReach('slice step')
        lo, hi = it.slice_bounds(x, n)
        return lo, sub(hi, lo)
    if isinstance(x, NUM) and not isinstance(x, (bool, float)):
        return it.norm_index(lift(x), n), ONE
    raise OutOfReach('casadi index %r' % type(x).__name__)


def two(it, a, idx):
    if isinstance(idx, tuple):
        if len(idx) != 2:
            raise OutOfReach('casadi index')
        return sel(it, idx[0], a.shape[0]), sel(it, idx[1], a.shape[1])
    if one(a.shape[1]):
        return sel(it, idx, a.shape[0]), (ZERO, ONE)
    raise OutOfReach('linear casadi index')


@model('cs_getitem')
def cs_getitem(it, a, idx):
    (r, nr), (c, nc) = two(it, a, idx)
    return Arr((nr, nc), lambda i, j: a.at(add(r, i), add(c, j)), kind=a.kind)


@model('cs_setitem')
def cs_setitem(it, a, idx, v):
    it.check_mut(a)
    if a.sym:
        raise OutOfReach('assignment into a symbol')
    (r, nr), (c, nc) = two(it, a, idx)
    # a numpy vector assigned to a row is a row
    if isinstance(v, Arr) and v.kind == 'np' and v.ndim == 1 and one(nr) and not one(nc):
        w = Arr((ONE, v.shape[0]), lambda i, j: tm.to_real(num(v.at(j))), kind='DM')
    else:
        w = csarr(it, v)
    if w.kind != 'DM' and a.kind == 'DM':
        raise PyRaise(NotImplementedError)
    if not is_scalar_shape(w):
        for s, t in zip(w.shape, (nr, nc)):
            if s is not t:
                it.oblige('assignment-shapes-match', eq(s, t))
    x, y = fresh('x'), fresh('x')
    conds = []
    for v_, lo, k, full in ((x, r, nr, a.shape[0]), (y, c, nc, a.shape[1])):
        if one(k):
            conds.append(eq(v_, lo))
            continue
        if lo is not ZERO:
            conds.append(le(lo, v_))
        if not (lo is ZERO and k is full):
            conds.append(lt(v_, add(lo, k)))
    new = w.at(ZERO, ZERO) if is_scalar_shape(w) else w.at(ZERO if one(nr) else sub(x, r), ZERO if one(nc) else sub(y, c))
    a.body = ite(and_(TRUE, *conds), new, a.at(x, y))
    a.vars = (x, y)


# ------------------------------------------------------------------ attributes
def cs_method(name, fn):
    TABLE[('attr', Arr, name)] = lambda it, a: Model_(lambda it, *x, **k: fn(it, a, *x, **k))


def need_cs(a):
    if a.kind == 'np':
        raise PyRaise(AttributeError)
    return a


cs_method('is_column', lambda it, a: as_py(eq(need_cs(a).shape[1], 1)))
cs_method('is_row', lambda it, a: as_py(eq(need_cs(a).shape[0], 1)))
cs_method('is_vector', lambda it, a: as_py(or_(eq(need_cs(a).shape[0], 1), eq(a.shape[1], 1))))
cs_method('is_scalar', lambda it, a: as_py(and_(eq(need_cs(a).shape[0], 1), eq(a.shape[1], 1))))
cs_method('is_empty', lambda it, a: as_py(or_(eq(need_cs(a).shape[0], 0), eq(a.shape[1], 0))))
cs_method('is_square', lambda it, a: as_py(eq(need_cs(a).shape[0], a.shape[1])))
cs_method('is_valid_input', lambda it, a: valid_input(a))
cs_method('is_symbolic', lambda it, a: bool(need_cs(a).sym))
cs_method('numel', lambda it, a: as_py(mul(*need_cs(a).shape)))
cs_method('size1', lambda it, a: as_py(need_cs(a).shape[0]))
cs_method('size2', lambda it, a: as_py(need_cs(a).shape[1]))
cs_method('size', lambda it, a: tuple(as_py(s) for s in need_cs(a).shape))
cs_method('rows', lambda it, a: as_py(need_cs(a).shape[0]))
cs_method('columns', lambda it, a: as_py(need_cs(a).shape[1]))
_np_size = NP[('attr', Arr, 'size')]
TABLE[('attr', Arr, 'size')] = lambda it, a: _np_size(it, a) if a.kind == 'np' else Model_(lambda it: tuple(as_py(s) for s in a.shape))


def valid_input(a):
    need_cs(a)
    v = getattr(a, 'valid', None)
    return v if v is not None else bool(a.sym)
