"""C23: symmetric entries.

Matrices are modelled element by element: which elements are stored and their values.  The stored triangle of an n x n entry
has element (i, j) at position p(i, j) for i <= j inside the symmetric pattern S of the entry; a and b are any index vectors."""
from .structs import *
from .c19 import FID, GD, IMD, PEI, SD, DEL, in_map, rec
from . import c24
import casadi as cs

TRUST = ('casadi: m[a, b] and m[k] select elements (column-major), x[i] and x[i] = v address the positions stored in i, m.T, m[pattern], m.sparsity(), triu2symm and DM.ones(pattern) '
         'work element by element')
n = var('n')
B = lambda x: var(x, 'B')
Sp = lambda i, j: app('S', i, j, sort='B')
p = lambda i, j: app('p', i, j, sort='I')
lo = lambda i, j: ite(le(i, j), i, j)
hi = lambda i, j: ite(le(i, j), j, i)


def isint(x):
    return isinstance(x, (T, int)) and not isinstance(x, bool)


class Ix:
    """index along one axis: number of selected rows and their numbers"""

    def __init__(self, name):
        self.name = name
        self.n = var('n:' + name)

    def at(self, k):
        return app(self.name, k, sort='I')


def matrix(R, C, has, val, tag='matrix', cls=cs.DM):
    def get(it, m, ix):
        if isinstance(ix, Rec) and ix.name == 'pattern':
            has2 = ix.spec['has']
            return matrix(ix.spec['R'], ix.spec['C'], has2, lambda i, j: ite(has(i, j), val(i, j), ZERO))
        if isinstance(ix, tuple) and len(ix) == 2 and all(isinstance(x, Rec) and x.name == 'axis' for x in ix):
            a, b = (x.spec['ix'] for x in ix)
            return matrix(a.n, b.n, lambda i, j: has(a.at(i), b.at(j)), lambda i, j: val(a.at(i), b.at(j)))
        if isinstance(ix, Rec) and ix.name == 'axis' and not it.ctx.decide(eq(C, ONE)) is True:
            a = ix.spec['ix']
            at = lambda f: lambda i, j: f(imod(a.at(i), R), idiv(a.at(i), R))
            return matrix(a.n, ONE, at(has), at(val))
        raise OutOfReach('element of a matrix')

    def put(it, m, ix, v):
        if not (isinstance(ix, Rec) and ix.name == 'matrix' and isinstance(v, Rec) and v.name in ('matrix', 'scalar')):
            raise OutOfReach('write to a matrix')
        it.events.append((ix, v))
    return rec(tag, cls=cls, R=R, C=C, has=has, val=val, __getitem__=get, __setitem__=put, T=lambda it, m: matrix(C, R, lambda i, j: has(j, i), lambda i, j: val(j, i)),
               sparsity=lambda it, m: Model_(lambda it: pattern(R, C, has)), shape=lambda it, m: (R, C), size1=lambda it, m: Model_(lambda it: R), size2=lambda it, m: Model_(lambda it: C),
               is_scalar=lambda it, m: Model_(lambda it: False), dim=lambda it, m: Model_(lambda it: 'dim'))


def pattern(R, C, has):
    def same(it, a, b):
        if not (isinstance(b, Rec) and b.name == 'pattern'):
            raise OutOfReach('comparison with a pattern')
        # the payload is one whose pattern is that of the addressed block, in case it fits
        i, j = fresh('i'), fresh('j')
        x, y = a.spec['has'](i, j), b.spec['has'](i, j)
        it.oblige('the pattern of the addressed block is compared', and_(eq(a.spec['R'], b.spec['R']), eq(a.spec['C'], b.spec['C'])))
        it.oblige('the pattern of the addressed block is compared', and_(implies(x, y), implies(y, x)), it.addressed(i, j, a.spec['R'], a.spec['C']))
        return B('fits')
    return rec('pattern', cls=cs.Sparsity, R=R, C=C, has=has, __eq__=same, __ne__=lambda it, a, b: not_(same(it, a, b)))


STORED = matrix(n, n, lambda i, j: and_(le(i, j), Sp(i, j)), p)


def triu2symm_(it, m):
    if not (isinstance(m, Rec) and 'has' in m.spec):
        raise OutOfReach('triu2symm of %r' % (m,))
    h, v = m.spec['has'], m.spec['val']
    return matrix(m.spec['R'], m.spec['C'], lambda i, j: h(lo(i, j), hi(i, j)), lambda i, j: v(lo(i, j), hi(i, j)))


def ones_(it, sp, *a):
    if a or not (isinstance(sp, Rec) and sp.name == 'pattern'):
        raise OutOfReach('ones')
    return matrix(sp.spec['R'], sp.spec['C'], sp.spec['has'], lambda i, j: ONE)


def reshape_(it, x, shape):
    if isinstance(x, Rec) and x.name == 'matrix' and tuple(shape) == (x.spec['R'], x.spec['C']):
        return x
    raise OutOfReach('reshape')


for _f in (triu2symm_, ones_, reshape_):
    _f.always = True
TABLE = {cs.triu2symm: triu2symm_, cs.DM.ones: ones_, cs.reshape: reshape_}


def flat():
    """the flat vector"""
    def get(it, m, ix):
        if not (isinstance(ix, Rec) and ix.name == 'matrix'):
            raise OutOfReach('positions')
        s = ix.spec
        return matrix(s['R'], s['C'], s['has'], lambda i, j: app('M', s['val'](i, j), sort='R'))
    return rec('master', cls=cs.DM, __getitem__=get, __setitem__=STORED.spec['__setitem__'])


def struct_(objects=False):
    m = rec('map', __contains__=lambda it, d, k: B('in:map'), __getitem__=lambda it, d, k: STORED)
    return rec('struct', cls=S3.CasadiStructure, map=lambda it, s: m)


ENTRY = Obj(S3.CasadiStructEntry, {'name': 'P', 'type': 'symm', 'struct': None, 'shapestruct': None, 'originalsparsity': pattern(n, n, Sp), 'sparsity': pattern(n, n, STORED.spec['has'])})
CAN = ('P',)
A, Bx, L = Ix('a'), Ix('b'), Ix('l')
axis = lambda ix: rec('axis', ix.name, cls=slice, ix=ix, dim=1 if ix.name == 'b' else 0)
COLON = rec('axis', 'all', cls=slice, ix=type('All', (), {'n': n, 'at': staticmethod(lambda k: k)})())
k_, l_ = fresh('k'), fresh('l')
FACTS = [le(1, n), le(0, A.n), le(0, Bx.n), le(0, L.n), forall(k_, ZERO, A.n, and_(le(0, A.at(k_)), lt(A.at(k_), n))), forall(k_, ZERO, Bx.n, and_(le(0, Bx.at(k_)), lt(Bx.at(k_), n))),
         forall(k_, ZERO, L.n, and_(le(0, L.at(k_)), lt(L.at(k_), mul(n, n))))]
SYMMETRIC = [('S', k_, l_)]
IDX = {'whole entry': ((), lambda i, j: (i, j), (n, n)),
       'block': ((axis(A), axis(Bx)), lambda i, j: (A.at(i), Bx.at(j)), (A.n, Bx.n)),
       'elements in column-major order': ((axis(L),), lambda i, j: (imod(L.at(i), n), idiv(L.at(i), n)), (L.n, ONE))}


def models(rng):
    for _ in range(10):
        N = rng.randint(1, 3)
        d = {(i, j): rng.random() < .8 for i in range(N) for j in range(i, N)}
        al, bl, ll = ([rng.randrange(N) for _ in range(rng.randint(1, 3))] for _ in range(3))
        at = lambda xs: lambda k: Fraction(xs[int(k) % len(xs)])
        get = lambda i, j: d.get((min(int(i), int(j)), max(int(i), int(j))), False)
        yield mkmodel({'n': N, 'n:a': len(al), 'n:b': len(bl), 'n:l': len(ll), 'in:map': rng.random() < .8, 'fits': rng.random() < .8, 'scalar': rng.random() < .5, 'v': Fraction(5)},
                      funs={'S': get, 'p': lambda i, j: Fraction(10 * int(i) + int(j)), 'M': lambda q: Fraction(int(q) + 100), 'a': at(al), 'b': at(bl), 'l': at(ll), 'val': lambda i, j: Fraction(int(i) + 7 * int(j)), 'obj': lambda i, j: Fraction(1)})


def sym(i, j):
    """the pattern of the entry is symmetric"""
    return [implies(Sp(i, j), Sp(j, i)), implies(Sp(j, i), Sp(i, j))]


def delegate(it, x, entry, i):
    it.oblige('the entry is passed on', lift(entry is ENTRY))
    it.oblige('the dimension is passed on', lift(x.spec['dim'] == i if isinstance(x, Rec) and 'dim' in x.spec else True))
    return x


C = {DEL: delegate}


class Read(Unit):
    name = 'GetterDispatcher.__call__ (symmetric)'
    targets = (GD.__call__, PEI)
    assumptions = (TRUST, 'contract of delegation (C19)', 'the stored triangle holds the elements of the pattern with row <= column (C18, C24)')

    def cases(self):
        for label, (extra, at, (R, C_)) in IDX.items():
            for part in (False, True):
                if part and extra:
                    continue

                def run(it, extra=extra, part=part):
                    objs = rec('objects', __contains__=lambda it, d, k: part, __getitem__=lambda it, d, k: matrix(n, n, STORED.spec['has'], lambda i, j: app('M', p(i, j), sort='R')))
                    d = it.call(GD, [], dict(struct=struct_(), master=flat(), priority_object_map=objs))
                    return direct(it, GD.__call__, [d, None, CAN], dict(entry=ENTRY, **({'extraIndex': extra} if extra else {})))

                def post(it, kind, v, ctx, at=at, R=R, C_=C_):
                    if kind == 'raise':
                        yield 'raises-only-when-unknown', not_(B('in:map'))
                        return
                    yield 'accepts-only-known', B('in:map')
                    if not (isinstance(v, Rec) and v.name == 'matrix'):
                        raise OutOfReach('value read')
                    yield 'rows', eq(v.spec['R'], R)
                    yield 'columns', eq(v.spec['C'], C_)
                    i, j = fresh('i'), fresh('j')
                    x, y = at(i, j)
                    c = ctx.rng(i, ZERO, R).rng(j, ZERO, C_)
                    for f in sym(x, y):
                        c = c + f
                    h = v.spec['has'](i, j)
                    yield 'pattern', and_(implies(h, Sp(x, y)), implies(Sp(x, y), h)), c
                    yield 'value', eq(v.spec['val'](i, j), app('M', p(lo(x, y), hi(x, y)), sort='R')), c + h
                yield case('%s%s' % (label, ', part of the vector' if part else ''), run, post, FACTS, models, dict(C), [TABLE])


class Write(Unit):
    name = 'SetterDispatcher.__call__ (symmetric)'
    targets = (SD.__call__, PEI)
    assumptions = Read.assumptions + ('a payload whose pattern equals that of the addressed block has its elements (casadi compares shape and pattern)',)

    def cases(self):
        for label, (extra, at, (R, C_)) in IDX.items():
            for scalar in (True, False):
                if not scalar and len(extra) == 1:
                    continue
                pay = rec('scalar', cls=cs.DM, is_scalar=lambda it, m: Model_(lambda it: True)) if scalar else matrix(R, C_, lambda i, j, at=at: Sp(*at(i, j)), lambda i, j: app('val', i, j, sort='R'))

                def run(it, extra=extra, pay=pay, at=at):
                    it.events = []

                    def block(i, j, R, C):
                        c = it.ctx.rng(i, ZERO, R).rng(j, ZERO, C)
                        for f in sym(*at(i, j)):
                            c = c + f
                        return c
                    it.addressed = block
                    mtype = rec('type', __call__=lambda it, t, x: pay)
                    d = it.call(SD, [], dict(struct=struct_(), master=flat(), mtype=mtype))
                    direct(it, SD.__call__, [d, rec('payload'), CAN], dict(entry=ENTRY, **({'extraIndex': extra} if extra else {})))

                yield case('%s, %s' % (label, 'scalar' if scalar else 'matrix'), run, self.post(at, R, C_, scalar), FACTS, models, dict(C), [TABLE])

    @staticmethod
    def post(at, R, C_, scalar):
        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'raises-only-when-unknown-or-wrong', not_(B('in:map')) if scalar else or_(not_(B('in:map')), not_(B('fits')))
                yield 'nothing is written', lift(not it.events)
                return
            yield 'accepts-only-known', B('in:map') if scalar else and_(B('in:map'), B('fits'))
            home = lambda x, y: p(lo(x, y), hi(x, y))
            i, j = fresh('i'), fresh('j')
            straight, mirrored = [], []
            for ev, (ix, val) in enumerate(it.events):
                r, c, has, pos = (ix.spec[q] for q in ('R', 'C', 'has', 'val'))
                if not scalar and val.name != 'matrix':
                    raise OutOfReach('value written')
                if not scalar:
                    yield 'write %d: shapes agree' % ev, and_(eq(val.spec['R'], r), eq(val.spec['C'], c))
                # the written block is the addressed one or its mirror image
                for flip in (False, True):
                    k, l = (j, i) if flip else (i, j)
                    x, y = at(k, l)
                    cc = ctx.rng(i, ZERO, r).rng(j, ZERO, c) + has(i, j)
                    for f in sym(x, y):
                        cc = cc + f
                    g = and_(eq(pos(i, j), home(x, y)), Sp(x, y), le(0, k), lt(k, R), le(0, l), lt(l, C_), TRUE if scalar else eq(val.spec['val'](i, j), app('val', k, l, sort='R')))
                    if is_proved(g, cc):
                        yield 'write %d: only addressed positions, with their values' % ev, g, cc
                        (mirrored if flip else straight).append(ix)
                        break
                else:
                    yield 'write %d: only addressed positions, with their values' % ev, FALSE, cc
                if val.name == 'matrix':
                    yield 'write %d: all values given' % ev, and_(implies(val.spec['has'](i, j), has(i, j)), implies(has(i, j), val.spec['has'](i, j))), ctx.rng(i, ZERO, r).rng(j, ZERO, c)
            x, y = at(i, j)
            cc = ctx.rng(i, ZERO, R).rng(j, ZERO, C_) + Sp(x, y)
            for f in sym(x, y):
                cc = cc + f
            inside = lambda m, i, j: and_(lt(i, m.spec['R']), lt(j, m.spec['C']), m.spec['has'](i, j))
            yield 'every addressed position is written', or_(*([inside(m, i, j) for m in straight] + [inside(m, j, i) for m in mirrored])), cc
        return post


def is_proved(g, ctx):
    from pyvc import prove
    return prove.prove(g, ctx)


class Positions(Unit):
    name = 'positions of symmetric entries'
    targets = (IMD.__call__, FID.__call__, PEI)
    assumptions = (TRUST,)

    def cases(self):
        # the positions of the stored triangle, each pair once
        run = lambda it: direct(it, IMD.__call__, [it.call(IMD, [], {'struct': struct_()}), None, CAN], {'entry': ENTRY})
        yield case('stored positions', run, returns(STORED, B('in:map')), FACTS, models, dict(C), [TABLE])


class Declaration(Unit):
    name = 'CasadiStructEntry.__init__ (symmetric)'
    targets = (S3.CasadiStructEntry.__init__,)
    assumptions = (c24.TRUSTED_SP,)

    def cases(self):
        vals = c24.values()
        sy = vals['type'][0]
        yield c24.entry_case({'type': sy})
        for k in c24.KWS:
            if k != 'type':
                for v in vals[k]:
                    yield c24.entry_case({k: v, 'type': sy})


UNITS = [Read, Write, Positions, Declaration]

from . import concrete
concrete.validate(UNITS, session=('GetterDispatcher.__call__ (symmetric)', 'SetterDispatcher.__call__ (symmetric)'), layout=('positions of symmetric entries',))
