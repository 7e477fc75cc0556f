"""Helpers of the contract files."""
from fractions import Fraction
import numpy as np
from pyvc.term import *
from pyvc.prove import Ctx
from pyvc.values import *
from pyvc.unit import *
from pyvc.interp import to_arr
from .spec import *

REAL = 'floating-point arithmetic is treated as exact real arithmetic'
DISTINCT = 'nodes are pairwise distinct'


def nodes_ctx(extra=(), name='tau', size=None, lo=1):
    size = var('n') if size is None else size
    return Ctx([le(lo, size)] + list(extra), {name: dict(n=size, inj=True)}, [BaryLemma(name, size)])


def rand_nodes(rng, k):
    s = set()
    while len(s) < k:
        s.add(Fraction(rng.randint(-12, 12), rng.choice([1, 2, 4, 8])))
    l = list(s)
    rng.shuffle(l)
    return [float(x) for x in l]


def elem(it, v, k, ctx):
    """element k of a sequence, for k in range (ctx knows)"""
    saved = it.ctx
    it.ctx = ctx
    n = len(it.obls)
    try:
        return it.getitem(v, k)
    finally:
        it.ctx = saved
        del it.obls[n:]


def length(it, v):
    return lift(it.length(v))


def is_arr(v, ndim=None):
    return isinstance(v, Arr) and (ndim is None or v.ndim == ndim)


def arr_posts(name, v, shape, fn, ctx):
    """v is an array of the given shape whose element at (i, ..) is fn(i, ..)"""
    if isinstance(v, np.ndarray) and v.ndim == len(shape):
        v = to_arr(v)
    if not is_arr(v, len(shape)):
        if not isinstance(v, (Arr, Lst, list, T, int, float, tuple, type(None))):
            raise OutOfReach('array of another form (%s)' % name)
        yield name + ':dimensions', FALSE
        return
    idx = []
    c = ctx
    for d, (a, b) in enumerate(zip(v.shape, shape)):
        yield '%s:size%d' % (name, d), eq(a, b)
        if b is ONE:
            idx.append(ZERO)
        else:
            i = fresh('ij'[d] if d < 2 else 'k')
            c = c.rng(i, ZERO, lift(b))
            idx.append(i)
    yield name + ':elements', eq(v.at(*idx), fn(*idx)), c


def guard(post):
    """a contract that never allows an exception"""
    def f(it, kind, v, ctx):
        if kind == 'raise':
            yield 'does-not-raise', FALSE
            return
        yield from post(it, v, ctx)
    return f


def parts(U, n):
    """the cases of a unit divided among n processes"""
    def cases(i):
        return lambda self: (c for j, c in enumerate(U.cases(self)) if j % n == i)
    return [type('%s%d' % (U.__name__, i), (U,), {'cases': cases(i), 'name': '%s (%d/%d)' % (U.name, i + 1, n)}) for i in range(n)]
