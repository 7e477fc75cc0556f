"""C22: matrix views and splitting of matrices."""
from .structs import *
from . import c19
from pyvc.interp import Star
from .c19 import B, MATRICES, TRUST
import casadi as cs
import numpy as np

DV = S3.CasadiStructureDerivable
r, c, size, osize = var('r'), var('c'), var('size'), var('osize')
FACTS = [le(0, r), le(0, c), le(0, size), le(0, osize)]
REFS = (S3.DataReferenceRepeated, S3.DataReferenceSquared, S3.DataReferenceProduct, S3.DataReferenceSquaredRepeated)


def models(rng):
    for _ in range(30):
        s = rng.randint(1, 3)
        m = {'size': s, 'osize': rng.randint(1, 3), 'r': s if rng.random() < .8 else rng.randint(0, 3), 'c': rng.randint(0, 6), 'dense': rng.random() < .8, 'castmaster': rng.random() < .5, 'n': rng.randint(0, 3), 'm': rng.randint(0, 2)}
        if rng.random() < .5:
            m['c'] = rng.choice([m['size'], m['osize'], 2 * s, 1])
        if rng.random() < .2:
            m['r'] = m['c'] = 1
        yield mkmodel(m, funs={'nz': lambda q: Fraction(q), 'new': lambda q: Fraction(int(q) + 50), 'at?': lambda q: int(q) % 2 == 0, 'data': lambda i, j: Fraction(1)})


# ------------------------------------------------------------------ storage

def dense(name, cls, rows, cols, f=None):
    """a dense matrix whose element (i, j) is number i + rows*j of its nonzeros"""

    def nz(it, m):
        cur = lambda: it.store[m.name, m.args]

        def get(it, z, ix):
            f = cur()
            if isinstance(ix, Rec) and ix.name == 'every':
                it.oblige('the positions of all elements', eq(ix.args[0], mul(m.spec['rows'], m.spec['cols'])))
            return rec('values', m, ix, cls=cls, f=f)

        def put(it, z, ix, v):
            f = cur()
            if not isinstance(ix, Rec):
                raise OutOfReach('positions')
            if ix.name == 'every':
                if not (isinstance(v, Rec) and v.name == 'values' and v.args[1].name == 'every'):
                    raise OutOfReach('values for every element')
                it.oblige('the positions of all elements', and_(eq(ix.args[0], v.args[1].args[0]), eq(ix.args[0], mul(m.spec['rows'], m.spec['cols']))))
                it.store[m.name, m.args] = v.spec['f']
            elif ix.name == 'positions':
                if not (isinstance(v, Rec) and v.name == 'payload'):
                    raise OutOfReach('values written')
                it.store[m.name, m.args] = lambda q: ite(app('at?', q, sort='B'), app('new', q, sort='R'), f(q))
            else:
                raise OutOfReach('positions')
        return rec('nz', m, __getitem__=get, __setitem__=put)

    def reshape(it, m, shape, *a):
        R, C = (lift(x) for x in ((shape,) + a if a else shape))
        if not it.branch(eq(mul(R, C), mul(rows, cols))):
            raise PyRaise(RuntimeError)
        v = dense('copy', cls, R, C)
        it.store['copy', ()] = it.store[m.name, m.args]
        return v
    sp = lambda it, m: Model_(lambda it: rec('sparsity', cls=cs.Sparsity, find=lambda it, s: Model_(lambda it: rec('every', mul(rows, cols)))))
    return rec(name, cls=cls, rows=rows, cols=cols, nz=nz, sparsity=sp, reshape=lambda it, m: Model_(lambda it, *a: reshape(it, m, *a)), shape=lambda it, m: (rows, cols), numel=lambda it, m: Model_(lambda it: mul(rows, cols)),
               size1=lambda it, m: Model_(lambda it: rows), size2=lambda it, m: Model_(lambda it: cols), is_dense=lambda it, m: Model_(lambda it: B('dense')), dim=lambda it, m: Model_(lambda it: 'dim'))


def reference(it, cls, M):
    """a reference to a matrix a and its shape"""
    n, m = var('size'), var('osize')
    it.store = {('a', ()): lambda q: app('nz', q, sort='R')}
    if cls is S3.DataReferenceRepeated:
        a = dense('a', M, n, m)
        return a, it.call(cls, [a, m], {}), mul(n, m)
    if cls is S3.DataReferenceSquared:
        a = dense('a', M, n, n)
        return a, it.call(cls, [a, n], {}), mul(n, n)
    if cls is S3.DataReferenceProduct:
        a = dense('a', M, n, m)
        return a, it.call(cls, [a, n, m], {}), mul(n, m)
    a = dense('a', M, n, mul(n, m))
    return a, it.call(cls, [a, n, m], {}), mul(n, mul(n, m))


class References(Unit):
    name = 'references to matrices'
    targets = tuple(f for k in REFS for f in (k.__init__, k.__getitem__, k.__setitem__, k.shape)) + (S3.DataReference.dim,)
    assumptions = ('casadi: the nonzeros of a dense matrix are its elements in column-major order, reshape keeps that order and copies, nz[i] and nz[i] = v address nonzeros by position, sparsity().find() lists all positions',)

    def cases(self):
        ix, pay = rec('positions'), rec('payload')
        for cls in REFS:
            for M in (cs.DM, cs.MX):
                def run(it, cls=cls, M=M, writes=1):
                    a, d, N = reference(it, cls, M)
                    for _ in range(writes):
                        it.setitem(d, ix, pay)
                    it.final = a, N
                    try:
                        w = it.getattr(d, 'v')
                    except PyRaise:
                        raise OutOfReach('another representation')
                    if not (isinstance(w, Rec) and (w.name, w.args) in it.store):
                        raise OutOfReach('another representation')
                    it.whole = it.store[w.name, w.args]
                    return (it.getitem(d, ix), it.getattr(d, 'shape'), it.getattr(d, 'a'))

                def post(writes):
                    def post(it, kind, v, ctx):
                        if kind == 'raise':
                            yield 'raises-only-when-sparse', not_(B('dense'))
                            return
                        yield 'accepts-only-dense', B('dense')
                        a, N = it.final
                        yield 'refers to the matrix', lift(v[2] is a)
                        yield 'length', eq(lift(v[1][0]), N)
                        yield 'column', eq(lift(v[1][1]), ONE)
                        q = fresh('q')
                        cc = ctx.rng(q, ZERO, N)
                        before = app('nz', q, sort='R')
                        want = ite(app('at?', q, sort='B'), app('new', q, sort='R'), before) if writes else before
                        yield 'elements of the matrix', eq(it.store['a', ()](q), want), cc
                        if not (isinstance(v[0], Rec) and v[0].name == 'values'):
                            raise OutOfReach('values read')
                        yield from veq('positions read', v[0].args[1], ix, ctx)
                        yield 'all elements in a row', eq(it.whole(q), want), cc
                        yield 'values read', eq(v[0].spec['f'](q), want), cc
                    return post
                for w in (0, 1):
                    yield case('%s of %s, %s' % (cls.__name__, M.__name__, 'after a write' if w else 'read'), lambda it, run=run, w=w: run(it, writes=w), post(w), [le(1, size), le(0, osize)], models)


# ------------------------------------------------------------------ views
def selfstruct(name='struct', size=size):
    return rec(name, cls=S3.CasadiStructured, size=lambda it, s: size, struct=lambda it, s: s)


class Views(Unit):
    name = 'matrix views'
    targets = (DV.repeated, DV.squared, DV.product, DV.squared_repeated)
    assumptions = (TRUST, 'contracts of argtype, entry, struct, DMStruct, MXStruct, SXStruct, Prefixer and DataReference')

    def cases(self):
        one = and_(eq(r, ONE), eq(c, ONE))
        wide = and_(one, ne(size, ONE))
        st, other = selfstruct(), selfstruct('other', osize)
        for M, K in ((cs.DM, 'DMStruct'), (cs.MX, 'MXStruct'), (cs.SX, 'SXStruct')):
            def arg(it, s, x, M=M):
                it.oblige('argument', lift(isinstance(x, Rec) and x.name == 'arg'))
                return (mat('a', M, r, c), M)

            def made(kind):
                def new(it, s, data=None):
                    if not (isinstance(s, Rec) and s.name == 'declared' and isinstance(data, Obj)):
                        raise OutOfReach('data of a view')
                    N = ONE
                    e = s.args[0]
                    for x in e.spec['parts']:
                        N = mul(N, x)
                    shape = it.getattr(data, 'shape')
                    it.oblige('as many elements as declared', eq(lift(shape[0]), N))
                    it.oblige('one column', eq(lift(shape[1]), ONE))
                    v = rec(kind, s, it.getattr(data, 'a'))
                    v.spec['prefix'] = lambda it, v: rec('prefix', v, __getitem__=lambda it, p, i: Obj(S3.Prefixer, {'struct': p.args[0], 'prefix': i if isinstance(i, tuple) else (i,), 'castmaster': False}))
                    return v
                return new

            def declare(it, l, order=None):
                if order is not None or not (isinstance(l, list) and len(l) == 1 and isinstance(l[0], Rec)):
                    raise OutOfReach('structure of a view')
                return rec('declared', l[0])

            def entry(it, nm, **kw):
                if set(kw) - {'struct', 'repeat', 'shapestruct'} or nm != 't':
                    raise OutOfReach('entry of a view')
                parts = []
                if 'struct' in kw:
                    parts.append(it.getattr(kw['struct'], 'size'))
                for x in kw.get('shapestruct', ()):
                    parts.append(it.getattr(x, 'size'))
                if 'repeat' in kw:
                    parts.append(lift(kw['repeat']))
                return rec('entry', kw.get('struct'), kw.get('shapestruct'), kw.get('repeat'), parts=parts)

            C = {DV.argtype: arg, ('new', S3.DMStruct): made('DMStruct'), ('new', S3.MXStruct): made('MXStruct'), ('new', S3.SXStruct): made('SXStruct'), ('new', S3.CasadiStructured): declare, S3.entry: entry}
            full = lambda R, Q: rec('times', R, Q, mat('a', M, r, c))
            view = lambda e, a, K=K: (rec(K, rec('declared', e), a), ('t',), True)
            decl = lambda s=None, ss=None, rep=None: rec('entry', s, ss, rep)

            def run(f, *x):
                def run(it):
                    it.store = {('a', ()): lambda q: app('nz', q, sort='R'), ('times', (size, size, 'a')): None}
                    p = direct(it, f, [st] + list(x) + [rec('arg')])
                    if not isinstance(p, Obj) or p.cls is not S3.Prefixer:
                        raise OutOfReach('view')
                    return tuple(it.getattr(p, k) for k in ('struct', 'prefix', 'castmaster'))
                return run

            def post(cond, bcast, e, R, Q, guard=TRUE):
                def post(it, kind, v, ctx):
                    if kind == 'raise':
                        yield 'raises-only-when-unsuitable', or_(not_(or_(bcast, cond)), not_(B('dense')), not_(guard))
                        return
                    yield 'accepts-only-suitable', or_(bcast, cond)
                    yield 'accepts-only-dense', B('dense')
                    a = v[0].args[1]
                    if isinstance(a, Rec) and a.name == 'times':
                        yield 'one number for all elements', one
                        yield from veq('view', v, view(e, full(R, Q)), ctx)
                    else:
                        yield 'matrix of the right size', cond
                        yield from veq('view', v, view(e, mat('a', M, r, c)), ctx)
                return post
            lab = M.__name__
            yield case('repeated, ' + lab, run(DV.repeated), post(eq(r, size), FALSE, decl(st, None, c), r, c), FACTS, models, dict(C), [ONES])
            yield case('squared, ' + lab, run(DV.squared), post(and_(eq(r, size), eq(c, size)), wide, decl(None, (st, st), None), size, size), FACTS, models, dict(C), [ONES])
            yield case('product, ' + lab, run(DV.product, other), post(and_(eq(r, size), eq(c, osize)), wide, decl(None, (st, other), None), size, osize), FACTS, models, dict(C), [ONES])
            yield case('squared_repeated, ' + lab, run(DV.squared_repeated), post(and_(eq(r, size), eq(imod(c, size), ZERO)), FALSE, decl(None, (st, st), idiv(c, size)), r, c), FACTS + [le(1, size)], models, dict(C), [ONES])


def mat(name, M, rows, cols):
    return dense(name, M, rows, cols)


def ones_(it, R, Q):
    R, Q = lift(R), lift(Q)

    def times(it, o, x):
        m = dense('times', x.cls, R, Q)
        m = rec('times', R, Q, x, cls=x.cls, **m.spec)
        it.store['times', m.args] = None
        return m
    return rec('ones', R, Q, cls=cs.DM, __mul__=times)


ones_.always = True
ONES = {cs.DM.ones: ones_}


class Split(Unit):
    name = 'CasadiStructureDerivable.parseMatrix'
    targets = (DV.parseMatrix,)
    assumptions = (TRUST, 'contract of __call__ (C19); casadi: horzcat puts columns side by side')

    def cases(self):
        n = var('n')
        key = lambda k: rec('key', k, cls=str)
        st = rec('struct', cls=S3.CasadiStructured, size=lambda it, s: size, struct=lambda it, s: s, keys=lambda it, s: Model_(lambda it: seq(n, key)), __call__=lambda it, s, x: call(it, s, x))

        def call(it, s, arg=0):
            if not (isinstance(arg, Arr) and arg.ndim == 1):
                raise OutOfReach('column')
            if not it.branch(or_(eq(arg.shape[0], size), eq(arg.shape[0], ONE))):
                raise PyRaise(Exception)
            i = fresh('i')
            col = arg.at(i)
            return rec('numbers', lam(i, col), arg.shape[0], __getitem__=lambda it, m, k: rec('read', m.args[0], m.args[1], k))

        def lam(i, t):
            return Lst([Seg(size, i, [t])])
        C = {}
        data = Arr((r, c), lambda i, j: app('data', i, j, sort='R'))

        def hcat(it, *a):
            return rec('horzcat', Lst([y for x in a for y in (x.v if isinstance(x, Star) else [x])]))
        hcat.always = True

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'raises-only-when-unsuitable', ne(r, size)
                return
            yield 'accepts-only-suitable', eq(r, size)
            yield from entries(v, ctx)

        def entries(v, ctx):
            col = lambda j: seq(size, lambda i: app('data', i, j, sort='R'))
            want = lambda k: rec('horzcat', Lst(list(seq(c, lambda j: rec('read', col(j), size, key(k))))))
            j = fresh('k')
            if isinstance(v, SDct):
                yield from veq('entries', v, SDct(list(seq(n, lambda k: (key(k), want(k))))), ctx)
            else:
                raise OutOfReach('entries')
        flat = Arr((c,), lambda j: app('data', ZERO, j, sort='R'))

        def row(it, kind, v, ctx):
            if kind == 'raise':
                yield 'raises-only-when-unsuitable', ne(size, 1)
                return
            yield 'accepts-only-suitable', eq(size, 1)
            yield from entries(v, ctx + eq(size, 1))
        yield case('numbers in a row', lambda it: direct(it, DV.parseMatrix, [st, flat]), row, FACTS + [le(0, n)], models, dict(C), [{cs.horzcat: hcat}])
        yield case('any matrix', lambda it: direct(it, DV.parseMatrix, [st, data]), post, FACTS + [le(0, n)], models, dict(C), [{cs.horzcat: hcat}])


class Delayed(Unit):
    name = 'DelegaterConstructor'
    targets = (S3.DelegaterConstructor.__init__, S3.DelegaterConstructor.__getitem__, S3.IndexDelegater.__call__, S3.FlatIndexDelegater.__call__)

    def cases(self):
        st = rec('structure', cls=S3.CasadiStructure, i=lambda it, s: rec('i', s, __getitem__=lambda it, p, a: rec('i-of', a)), f=lambda it, s: rec('f', s, __getitem__=lambda it, p, a: rec('f-of', a)))
        one = rec('name', cls=str)
        path = seq(var('n'), lambda k: rec('p', k), tuple)
        for nm, con, w in (('index', S3.index, 'i-of'), ('indexf', S3.indexf, 'f-of')):
            for label, p, t in (('name', one, (one,)), ('tuple', path, path)):
                def run(it, con=con, p=p):
                    o = it.call(S3.DelegaterConstructor, [con.delegater], {})
                    return it.call(it.getitem(o, p), [st], {})
                yield case('%s, %s' % (nm, label), run, returns(rec(w, t)), [le(0, var('n'))], models)


class Cast(Unit):
    name = 'Prefixer.cast'
    targets = (S3.Prefixer.cast, S3.Prefixer.__call__, S3.Structured.cat)

    def cases(self):
        a = rec('a', cls=cs.DM)
        for label, master in (('a matrix', a), ('a reference', Obj(S3.DataReferenceProduct, {'a': a, 'v': rec('v', cls=cs.DM), 'n': size, 'm': osize}))):
            s = rec('vector', cls=S3.DMStruct, master=lambda it, s, master=master: master, __getitem__=lambda it, s, p: rec('read', p))
            for cast in (True, False):
                p = Obj(S3.Prefixer, {'struct': s, 'prefix': ('t',), 'castmaster': cast})
                yield case('%s, %s' % (label, 'whole' if cast else 'part'), lambda it, p=p: direct(it, S3.Prefixer.cast, [p]), returns(a if cast else rec('read', ('t',))), FACTS, models)
            o = Obj(S3.DMStruct, {'master': master})
            yield case('%s, flat' % label, lambda it, o=o: it.getattr(o, 'cat'), returns(a), FACTS, models)


UNITS = [References, Views, Split, Delayed, Cast, c19.Delegation, c19.ExtraIndex]

from . import concrete
concrete.validate(UNITS, views=('references to matrices', 'matrix views', 'CasadiStructureDerivable.parseMatrix'))
