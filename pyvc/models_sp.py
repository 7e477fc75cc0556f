"""Trusted model of casadi sparsity patterns and of matrices as (pattern, nonzeros).

A pattern is an uninterpreted value with a number of rows, of columns and of nonzeros and, for every nonzero in column-major
order, its row and its column.  The patterns built by the code are dense(r, c), upper(n), and the intersection of two."""
import casadi as cs
from .term import *
from .values import *
from .models_np import scal, NUM

TABLE = {}


def model(*keys, always=True):
    def deco(f):
        for k in keys:
            g = lambda it, *a, _f=f, **kw: _f(it, *a, **kw)
            g.always = always
            TABLE[k] = g
        return f
    return deco


# ------------------------------------------------------------------ patterns
def size1(sp):
    if sp.name in ('dense', 'upper'):
        return lift(sp.args[0])
    if sp.name == 'both':
        return size1(sp.args[0])
    return app('rows', *sp.args, sort='I')


def size2(sp):
    if sp.name == 'dense':
        return lift(sp.args[1])
    if sp.name == 'upper':
        return lift(sp.args[0])
    if sp.name == 'both':
        return size2(sp.args[0])
    return app('cols', *sp.args, sort='I')


def nnz(sp):
    if sp.name == 'dense':
        return mul(size1(sp), size2(sp))
    if sp.name == 'sp':
        return app('nnz', *sp.args, sort='I')
    raise OutOfReach('nonzeros of %s' % sp.name)


def row(sp, k):
    if sp.name == 'dense':
        return imod(k, size1(sp))
    if sp.name == 'sp':
        return app('row', *sp.args, lift(k), sort='I')
    raise OutOfReach('rows of %s' % sp.name)


def col(sp, k):
    if sp.name == 'dense':
        return idiv(k, size1(sp))
    if sp.name == 'sp':
        return app('col', *sp.args, lift(k), sort='I')
    raise OutOfReach('columns of %s' % sp.name)


def _list(n, f):
    k = fresh('k')
    return Lst([Seg(n, k, [f(k)])])


def same_pattern(it, a, b):
    if not (isinstance(b, Rec) and b.cls is cs.Sparsity):
        return FALSE
    if a.name == b.name:
        r = and_(*[it.truth(it.compare('Eq', x, y)) for x, y in zip(a.args, b.args)])
        if a.name == 'sp' and r is not TRUE:
            return app('same-pattern', *a.args, *b.args, sort='B')
        return r
    raise OutOfReach('comparison of patterns %s and %s' % (a.name, b.name))


def times(it, a, b):
    return Rec('both', (a, b), cs.Sparsity, SP)


SP = {
    'size1': lambda it, s: Model_(lambda it: as_py(size1(s))),
    'size2': lambda it, s: Model_(lambda it: as_py(size2(s))),
    'shape': lambda it, s: (as_py(size1(s)), as_py(size2(s))),
    'nnz': lambda it, s: Model_(lambda it: as_py(nnz(s))),
    'row': lambda it, s: Model_(lambda it, *k: as_py(row(s, k[0])) if k else _list(nnz(s), lambda i: row(s, i))),
    'get_col': lambda it, s: Model_(lambda it: _list(nnz(s), lambda i: col(s, i))),
    'dim': lambda it, s: Model_(lambda it, *a: '<str>'),
    '__eq__': same_pattern,
    '__mul__': times,
}


def dense(r, c=1):
    return Rec('dense', (lift(r), lift(c)), cs.Sparsity, SP)


def pattern(*ids):
    return Rec('sp', tuple(lift(i) if isinstance(i, int) else i for i in ids), cs.Sparsity, SP)


def pattern_facts(*ids):
    s = pattern(*ids)
    return [le(0, size1(s)), le(0, size2(s)), le(0, nnz(s))]


@model(cs.Sparsity.dense)
def dense_(it, *a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = tuple(a[0])
    if len(a) not in (1, 2) or not all(isinstance(x, (int, T)) for x in a) or any(isinstance(x, T) and x.sort != 'I' for x in a):
        raise PyRaise(NotImplementedError)
    r, c = lift(a[0]), lift(a[1]) if len(a) == 2 else ONE
    if not it.branch(and_(le(0, r), le(0, c))):
        raise PyRaise(RuntimeError)
    return dense(r, c)


@model(cs.Sparsity.upper)
def upper_(it, n):
    return Rec('upper', (scal(n),), cs.Sparsity, SP)
