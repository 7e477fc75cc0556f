"""C19: reads and writes of structured vectors.

Matrices of casadi are uninterpreted here: x[i] is gather(x, i), i[a] is sub(i, a), and writes are recorded in order.  What is
proved is which positions are read and written; that casadi's x[i] = v followed by x[i] gives v back and changes nothing else
is trusted."""
import types
import collections.abc
from .structs import *
from pyvc import models_np as NPM
import casadi as cs

GD, SD, IMD, FID = S3.GetterDispatcher, S3.SetterDispatcher, S3.CasadiStructure.IMDispatcher, S3.CasadiStructure.FlatIndexDispatcher
PEI, DEL = S3.performExtraIndex, S3.delegation
TRUST = 'casadi: x[i] for a matrix of positions i, i[a] and i[a, b], reshape and the conversions DM(x), MX(x), SX(x) behave as documented'


def dims(m):
    return (rec('rows', m), rec('columns', m))


def index_matrix(name, *args):
    """a matrix of positions"""
    def get(it, m, a):
        if it.branch(var('rejected', 'B')):
            raise PyRaise(NotImplementedError)
        return index_matrix('sub', m, a)
    return rec(name, *args, cls=cs.DM, __getitem__=get, shape=lambda it, m: dims(m), size1=lambda it, m: Model_(lambda it: dims(m)[0]), size2=lambda it, m: Model_(lambda it: dims(m)[1]), is_dense=lambda it, m: Model_(lambda it: var('dense', 'B')),
               nonzeros=lambda it, m: Model_(lambda it: seq(var('nz'), lambda k: app('pos', k, sort='I'))))


def fn(name='f'):
    return rec(name, cls=types.FunctionType, __call__=lambda it, f, x: rec('apply', f, x, cls=cs.DM, is_dense=lambda it, m: Model_(lambda it: var('dense', 'B')),
               nonzeros=lambda it, m: Model_(lambda it: seq(var('nz'), lambda k: app('pos', k, sort='I')))))


def delegater():
    return rec('delegater', cls=S3.IndexDelegater, __call__=lambda it, d, s: rec('delegated', d, s))


def plain_index(name):
    return rec(name, cls=slice)


def models(rng):
    """both values of every switch"""
    for _ in range(12):
        yield mkmodel({'in:map': rng.random() < .7, 'in:objects': rng.random() < .5, 'rejected': rng.random() < .3, 'dense': rng.random() < .7, 'refused': rng.random() < .2, 'unsuitable': rng.random() < .2, 'failed': rng.random() < .2,
                       'n': rng.randint(0, 3), 'm': rng.randint(0, 2), 'nz': rng.randint(0, 2), 'size': rng.randint(0, 3), 'r': rng.randint(0, 3), 'c': rng.randint(0, 2), 'unlike:DM': rng.random() < .2, 'unlike:MX': rng.random() < .2, 'unlike:SX': rng.random() < .2},
                      funs={'pos': lambda k: Fraction(k), 'str?': lambda k: rng.random() < .5, 'in': lambda *a: True, 'missing': lambda k: False})


FACTS = [le(0, var('n')), le(0, var('m')), le(0, var('nz')), le(0, var('size')), le(0, var('r')), le(0, var('c'))]
B = lambda n: var(n, 'B')


# ------------------------------------------------------------------ indices into a matrix
class Delegation(Unit):
    name = 'delegation'
    targets = (DEL, S3.is_string, S3.IndexDelegater.__call__, S3.FlatIndexDelegater.__call__)

    def cases(self):
        st = rec('structure', cls=S3.CasadiStructure, i=lambda it, s: rec('positions', s, __getitem__=lambda it, p, a: rec('i-of', p, a)),
                 f=lambda it, s: rec('flat', s, __getitem__=lambda it, p, a: rec('f-of', p, a)))
        other = rec('structure2', cls=S3.CasadiStructure, i=st.spec['i'], f=st.spec['f'])

        def entry(ss):
            return Obj(S3.CasadiStructEntry, {'shapestruct': ss, 'name': 'x', 'type': None})
        flat = lambda s, a: rec('f-of', rec('flat', s), a)
        nm = rec('key', cls=str)
        names = Lst([nm] + list(seq(var('n'), lambda i: rec('k', i, cls=str))))
        idx = rec('arg')
        mk = lambda c: (lambda it: it.call(c, [idx], {}))
        for pos in (0, 1):
            for label, ex, want in (
                    ('name', lambda it: nm, lambda s: flat(s, nm)),
                    ('list of names', lambda it: names, lambda s: flat(s, names)),
                    ('index', mk(S3.IndexDelegater), lambda s: rec('i-of', rec('positions', s), idx)),
                    ('flat index', mk(S3.FlatIndexDelegater), lambda s: flat(s, idx))):
                ss = (st, other)
                yield case('%s, dimension %d' % (label, pos), lambda it, ex=ex, pos=pos, ss=ss: direct(it, DEL, [ex(it), entry(ss), pos]), returns(want(ss[pos])), FACTS, models)
                yield case('%s, dimension %d is a number' % (label, pos), lambda it, ex=ex, pos=pos: direct(it, DEL, [ex(it), entry((var('r'), var('r'))), pos]), raises(), FACTS, models)
                yield case('%s, dimension %d, no structure' % (label, pos), lambda it, ex=ex, pos=pos: direct(it, DEL, [ex(it), entry(None), pos]), raises(), FACTS, models)
                yield case('%s, dimension %d, no entry' % (label, pos), lambda it, ex=ex, pos=pos: direct(it, DEL, [ex(it), None, pos]), raises(), FACTS, models)
            for label, x in (('integer', var('r')), ('slice', plain_index('s')), ('empty list', Lst([])), ('list of integers', Lst([var('r')] + list(symlist('pos', 'n')))), ('matrix', index_matrix('i'))):
                for e in (entry((st, other)), entry(None), None):
                    yield case('%s is kept, dimension %d, %s' % (label, pos, 'no entry' if e is None else 'no structure' if e.attrs['shapestruct'] is None else 'structures'),
                               lambda it, x=x, e=e, pos=pos: direct(it, DEL, [x, e, pos]), returns(x), FACTS, models)


def delegate(it, x, entry, i):
    return rec('delegation', x, entry, i)


class ExtraIndex(Unit):
    name = 'performExtraIndex'
    targets = (PEI,)
    assumptions = (TRUST, 'contract of delegation')

    def cases(self):
        C = {DEL: delegate, PEI: lambda it, i, extraIndex=None, entry=None, flip=False: rec('positions', i, extraIndex, entry, flip)}
        i, e = index_matrix('i'), rec('entry')
        a, b, c = (plain_index(x) for x in 'abc')
        d = lambda x, k: rec('delegation', x, e, k)
        ok = not_(B('rejected'))
        for flip in (False, True):
            def mk(label, x, want, cond=TRUE, kw=None, flip=flip):
                k = dict(extraIndex=x, entry=e)
                if flip:
                    k['flip'] = True
                return case('%s%s' % (label, ', mirrored' if flip else ''), lambda it: direct(it, PEI, [i], k), raises() if want is None else returns(want, cond), FACTS, models, dict(C))
            yield mk('no index', None, i)
            yield mk('empty index', (), i)
            yield mk('nested dictionaries', (S3.nesteddict,), i)
            for kind in (tuple, Lst):
                yield mk('one index (%s)' % kind.__name__, kind([a]), index_matrix('sub', i, d(a, 0)), ok)
                yield mk('two indices (%s)' % kind.__name__, kind([a, b]), index_matrix('sub', i, (d(b, 1), d(a, 0)) if flip else (d(a, 0), d(b, 1))), ok)
                yield mk('delegater (%s)' % kind.__name__, kind([delegater()]), index_matrix('sub', i, d(delegater(), 0)), ok)
                yield mk('three indices (%s)' % kind.__name__, kind([a, b, c]), None)
                yield mk('four or more indices (%s)' % kind.__name__, kind([a, b, c, a] + list(seq(var('n'), lambda j: rec('x', j)))), None)
                rest = list(seq(var('n'), lambda j: rec('x', j)))
                yield mk('function (%s)' % kind.__name__, kind([fn()] + rest), rec('apply', fn(), rec('positions', i, kind(rest), e, flip)))


class Pick(Unit):
    name = 'correct_vector_indexing'
    targets = (S3.correct_vector_indexing,)
    assumptions = (TRUST,)

    def cases(self):
        x = rec('x', __getitem__=lambda it, x, i: rec('gather', x, i))
        i = index_matrix('i')
        yield case('any matrix of positions', lambda it: direct(it, S3.correct_vector_indexing, [x, i]), returns(rec('reshape', rec('gather', x, i), dims(i))), FACTS, models, tables=[RESHAPE])


def reshape_(it, x, shape, *a):
    return rec('reshape', x, shape) if not a else rec('reshape', x, (shape,) + a)


reshape_.always = True
RESHAPE = {cs.reshape: reshape_}


# ------------------------------------------------------------------ dispatchers
CAN = seq(var('m'), lambda k: rec('c', k), tuple)


def in_map(name):
    return rec(name, __contains__=lambda it, d, k: B('in:' + name), __getitem__=lambda it, d, k: index_matrix('at', k) if name == 'map' else rec('object', k))


def struct_():
    return rec('struct', cls=S3.CasadiStructure, map=lambda it, s: in_map('map'))


def master():
    def put(it, m, i, v):
        if it.branch(B('refused')):
            raise PyRaise(NotImplementedError)
        if it.branch(B('failed')):
            raise PyRaise(RuntimeError)
        it.events.append((i, v))
    return rec('master', __getitem__=lambda it, m, i: rec('gather', m, i), __setitem__=put)


def positions(it, i, extraIndex=None, entry=None, flip=False):
    return index_matrix('positions', i, None if extraIndex is None or isinstance(extraIndex, (tuple, list)) and not len(extraIndex) else tuple(extraIndex), entry, flip)


def positions_if_any(it, i, extraIndex=None, entry=None, flip=False):
    """as positions, for indices that may be unsuitable"""
    r = positions(it, i, extraIndex, entry, flip)
    if r.args[1] is not None and it.branch(B('unsuitable')):
        raise PyRaise(Exception)
    return r


def P(extra, e, flip=False):
    return index_matrix('positions', index_matrix('at', CAN), tuple(extra) if extra else None, e, flip)


PLAIN = lambda: Obj(S3.CasadiStructEntry, {'name': 'x', 'type': None, 'struct': None, 'shapestruct': None})


class Getter(Unit):
    name = 'GetterDispatcher.__call__'
    targets = (GD.__call__, S3.Dispatcher.__init__, S3.Dispatcher.callableInner, S3.Dispatcher.callableOuter)
    assumptions = (TRUST, 'contracts of performExtraIndex and correct_vector_indexing')

    def cases(self):
        C = {PEI: positions_if_any, S3.correct_vector_indexing: lambda it, x, i: rec('pick', x, i), GD.__call__: lambda it, d, payload, c, extraIndex=None, entry=None: rec('read', c, extraIndex, entry)}
        mk = lambda it: it.call(GD, [], dict(struct=struct_(), master=master(), priority_object_map=in_map('objects')))
        rest = list(seq(var('n'), lambda j: rec('x', j)))
        for e in (None, PLAIN()):
            lab = ', no entry' if e is None else ''
            for x in (None, ()):
                kw = {} if x is None else {'extraIndex': x}
                kw['entry'] = e
                yield case('whole entry%s (%r)' % (lab, x), lambda it, kw=kw: direct(it, GD.__call__, [mk(it), None, CAN], kw),
                           self.post(lambda ctx: rec('object', CAN), lambda ctx: rec('pick', rec('master'), P(None, e))), FACTS, models, dict(C))
            a, b = plain_index('a'), plain_index('b')
            for x in ((a,), (a, b), (delegater(),), (a, b) + tuple(rest)):
                yield case('%d indices%s%s' % (len(x), ' or more' if has_seg(x) else '', lab), lambda it, x=x, e=e: direct(it, GD.__call__, [mk(it), None, CAN], dict(extraIndex=x, entry=e)),
                           returns(rec('pick', rec('master'), P(x, e)), and_(B('in:map'), not_(B('unsuitable')))), FACTS, models, dict(C))
            x = (fn(),) + tuple(rest)
            yield case('function%s' % lab, lambda it, x=x, e=e: direct(it, GD.__call__, [mk(it), None, CAN], dict(extraIndex=x, entry=e)), returns(rec('apply', fn(), rec('read', CAN, tuple(rest), e))), FACTS, models, dict(C))
        yield case('functions in the index apply to what is read', lambda it: (it.call(it.getattr(d := mk(it), 'callableInner'), [], {}) is d, it.call(it.getattr(d, 'callableOuter'), [None, CAN], {'inner': rec('r')})), returns((True, rec('r'))), FACTS, models)

    @staticmethod
    def post(with_object, without):
        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'raises-only-when-unknown', not_(B('in:map'))
                return
            yield 'accepts-only-known', B('in:map')
            if isinstance(v, Rec) and v.name == 'object':
                yield 'object of the entry', B('in:objects')
                yield from veq('object of the entry', v, with_object(ctx), ctx)
            else:
                yield 'part of the vector', not_(B('in:objects'))
                yield from veq('part of the vector', v, without(ctx), ctx)
        return post


class Setter(Unit):
    name = 'SetterDispatcher.__call__'
    targets = (SD.__call__, SD.callableInner, SD.callableOuter)
    assumptions = (TRUST, 'contract of performExtraIndex')

    def cases(self):
        C = {PEI: positions_if_any}
        mtype = rec('type', __call__=lambda it, t, x: rec('convert', x))

        def mk(it):
            it.events = []
            return it.call(SD, [], dict(struct=struct_(), master=master(), mtype=mtype))
        a, b = plain_index('a'), plain_index('b')

        def post(x, e):
            unfit = B('unsuitable') if x else FALSE

            def post(it, kind, v, ctx):
                if kind == 'raise':
                    yield 'raises-only-when-unknown-or-refused', or_(not_(B('in:map')), B('refused'), B('failed'), unfit)
                    yield 'exception', lift(isinstance(v.etype, type) and issubclass(v.etype, Exception))
                    yield 'nothing is written', lift(not it.events)
                    yield 'incompatible types', implies(and_(B('in:map'), B('refused'), not_(unfit)), lift(v.etype is S3.CompatibilityException))
                    return
                yield 'accepts-only-known', and_(B('in:map'), not_(B('refused')), not_(B('failed')), not_(unfit))
                yield from veq('written', Lst(it.events), Lst([(P(x, e), rec('convert', rec('payload')))]), ctx)
            return post
        for e in (None, PLAIN()):
            for x in (None, (), (a,), (a, b), (delegater(), delegater()), (fn(), a)):
                kw = {'entry': e}
                if x is not None:
                    kw['extraIndex'] = x
                yield case('%s indices%s' % (x if x is None else len(x), '' if e else ', no entry') + (', function' if x and x[0].name == 'f' else ', delayed' if x and x[0].name == 'delegater' else ''),
                           lambda it, kw=kw: direct(it, SD.__call__, [mk(it), rec('payload'), CAN], kw), post(x, e), FACTS, models, dict(C))

        def inner(it):
            d = it.call(it.getattr(mk(it), 'callableInner'), [], {})
            return (d.cls.__name__ if isinstance(d, Obj) else d, it.call(d, [None, CAN], {}))
        yield case('functions in the index apply to the positions', inner, returns(('IMDispatcher', P(None, None)), B('in:map')), FACTS, models, dict(C))

        def outer_post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'raises-only-when-refused', or_(B('refused'), B('failed'))
                yield 'nothing is written', lift(not it.events)
                return
            yield 'accepts', and_(not_(B('refused')), not_(B('failed')))
            yield from veq('written', Lst(it.events), Lst([(rec('inner'), rec('payload'))]), ctx)
        yield case('the positions made by the function are written', lambda it: direct(it, SD.callableOuter, [mk(it), rec('payload'), CAN], {'inner': rec('inner')}), outer_post, FACTS, models)


class Positions(Unit):
    name = 'index dispatchers'
    targets = (IMD.__call__, FID.__call__)
    assumptions = (TRUST, 'contract of performExtraIndex')

    def cases(self):
        a, b = plain_index('a'), plain_index('b')
        for x in (None, (), (a,), (a, b), (fn(), a)):
            for e in (None, PLAIN()):
                def at(it, *a, x=x, e=e, **k):
                    r = positions(it, *a, **k)
                    require(it, 'all of the index is used', r, P(x, e))
                    return r
                C = {PEI: at}
                kw = dict(entry=e)
                if x is not None:
                    kw['extraIndex'] = x
                lab = '%s indices%s' % (x if x is None else len(x), '' if e else ', no entry')
                yield case('matrix, ' + lab, lambda it, kw=kw: direct(it, IMD.__call__, [it.call(IMD, [], {'struct': struct_()}), None, CAN], kw), returns(P(x, e), B('in:map')), FACTS, models, dict(C))
                yield case('list, ' + lab, lambda it, kw=kw: direct(it, FID.__call__, [it.call(FID, [], {'struct': struct_()}), None, CAN], kw),
                           self.flat, FACTS, models, dict(C))

        made = seq(var('n'), lambda k: rec('position', k))
        yield case('list made by a function', lambda it: direct(it, FID.__call__, [it.call(FID, [], {'struct': struct_()}), None, CAN], {'extraIndex': (fn(), a), 'entry': PLAIN()}), returns(made, B('in:map')), FACTS, models, {PEI: lambda it, *a, **k: made})

    @staticmethod
    def flat(it, kind, v, ctx):
        if kind == 'raise':
            yield 'raises-only-when-unknown', or_(not_(B('in:map')), not_(B('dense')))
            return
        yield 'accepts-only-known', and_(B('in:map'), B('dense'))
        yield from veq('positions', v, seq(var('nz'), lambda k: app('pos', k, sort='I')), ctx)


# ------------------------------------------------------------------ structured vectors
def put(it, m, i, v):
    if it.branch(B('refused')):
        raise PyRaise(NotImplementedError)
    it.events.append((m, i, v))


def vector(name, cls, r=None, c=None):
    """a matrix of casadi with r rows and c columns"""
    return rec(name, cls=cls, shape=lambda it, m: (var('r') if r is None else r, var('c') if c is None else c), dim=lambda it, m: Model_(lambda it: 'dim'),
               size1=lambda it, m: Model_(lambda it: var('r') if r is None else r), size2=lambda it, m: Model_(lambda it: var('c') if c is None else c),
               __getitem__=lambda it, m, i: rec('gather', m, i), __setitem__=put)


def converter(cls):
    def new(it, x=None, *a):
        if a:
            raise OutOfReach('matrix of several arguments')
        if isinstance(x, Rec) and x.cls is cls:
            return rec('copy', x, cls=cls, **x.spec)
        if isinstance(x, Rec) and (cls, x.cls) in ((cs.DM, cs.MX), (cs.MX, cs.SX), (cs.SX, cs.MX)):
            raise PyRaise(NotImplementedError)
        if not (isinstance(x, Rec) and x.cls in (cs.DM, cs.SX)) and it.branch(B('unlike:' + cls.__name__)):
            raise PyRaise(NotImplementedError)
        return vector('convert:' + cls.__name__, cls) if x is None else rec('convert:' + cls.__name__, x, cls=cls, **vector('', cls).spec)
    new.always = True
    return new


def nans(cls):
    def nan(it, r, c):
        return rec('nan', lift(r), lift(c), cls=cls, **vector('', cls, lift(r), lift(c)).spec)
    nan.always = True
    return nan


MATRICES = {cs.DM: converter(cs.DM), cs.MX: converter(cs.MX), cs.SX: converter(cs.SX), cs.DM.nan: nans(cs.DM), cs.MX.nan: nans(cs.MX), cs.SX.nan: nans(cs.SX)}
EXTRA, ENTRY = (plain_index('a'), plain_index('b')), PLAIN()


def traversal(extra=EXTRA):
    """the dispatcher is applied to some element with some remaining index"""
    def traverse(it, *a, **kw):
        dispatcher, payload = kw.pop('dispatcher'), kw.pop('payload', None)
        if kw:
            raise OutOfReach('arguments of a traversal')
        it.index = a
        return it.call(dispatcher, [payload, CAN], {'extraIndex': extra, 'entry': ENTRY} if extra else {'entry': ENTRY})
    return traverse


def structure(extra=EXTRA):
    def own(name):
        return lambda it, s: rec(name)
    sp = {n: own(n) for n in ('i', 'f', 'getStruct', 'getCanonicalIndex', 'canonicalIndices', 'getLabel', 'labels', 'order')}
    return rec('struct', cls=S3.CasadiStructure, struct=lambda it, s: s, map=lambda it, s: in_map('map'), size=lambda it, s: var('size'),
               keys=lambda it, s: Model_(lambda it: seq(var('n'), lambda k: rec('key', k, cls=str))),
               traverseByPowerIndex=lambda it, s: Model_(traversal(extra)), **sp)


KINDS = {S3.DMStruct: cs.DM, S3.SXStruct: cs.SX}
OKDATA = lambda r, c, size: and_(eq(r, size), or_(eq(c, ONE), eq(r, ZERO)))
CC = {PEI: positions, S3.correct_vector_indexing: lambda it, x, i: rec('pick', x, i), S3.VertsplitStructure.buildMap: lambda it, s, *a, **k: it.events.append('map')}


def build(it, cls, data=None, extra=EXTRA):
    it.events, it.index = [], None
    return it.call(cls, [structure(extra)], {} if data is None else {'data': data})


class Container(Unit):
    name = 'structured vectors'
    targets = (S3.MatrixStruct.__init__, S3.DMStruct.__init__, S3.SXStruct.__init__, S3.CasadiStructured.__init__, S3.Structured.__init__, S3.Structured.cat, S3.Structured.keys, S3.Structured.size,
               S3.MasterGettable.__getitem__, S3.MasterSettable.__setitem__, S3.properGetitem, GD.__call__, SD.__call__)
    assumptions = (TRUST, 'contracts of performExtraIndex, correct_vector_indexing; traverseByPowerIndex applies the dispatcher to the selected elements (C20)')

    def cases(self):
        fits = OKDATA(var('r'), var('c'), var('size'))
        for cls, M in list(KINDS.items()) + [(S3.MXStruct, cs.MX)]:
            other = rec('values', cls=list)
            nan = rec('nan', var('size'), ONE)
            for label, data, want, cond in (('same type', vector('data', M), lambda d: d, fits), ('other data', other, lambda d: rec('convert:' + M.__name__, d), and_(not_(B('unlike:' + M.__name__)), fits)), ('no data', None, lambda d: nan, TRUE)):
                def flat(it, cls=cls, data=data):
                    o = build(it, cls, data)
                    return (it.getattr(o, 'cat'), it.getattr(o, 'size'), it.call(it.getattr(o, 'keys'), [], {}), it.getattr(o, 'shape'))
                yield case('%s, %s' % (cls.__name__, label), flat, returns((want(data), var('size'), seq(var('n'), lambda k: rec('key', k)), (var('size'), ONE)), cond), FACTS, models, dict(CC), [MATRICES])

            for extra in ((), EXTRA):
                def read(it, p, cls=cls, M=M, extra=extra):
                    o = build(it, cls, vector('data', M, var('size'), ONE), extra)
                    return (it.getitem(o, p), it.index)
                for label, p in (('name', rec('p', cls=str)), ('tuple', (rec('p', cls=str), rec('q', cls=str)))):
                    lab = '%s, %s%s' % (cls.__name__, label, ', matrix index' if extra else '')
                    yield case('read: ' + lab, lambda it, p=p, read=read: read(it, p), self.got(p, extra), FACTS, models, dict(CC), [MATRICES])

                    def write(it, p=p, cls=cls, M=M, extra=extra):
                        o = build(it, cls, vector('data', M, var('size'), ONE), extra)
                        it.events = []
                        it.setitem(o, p, rec('values', cls=list))
                    yield case('write: ' + lab, write, self.put(p, M, extra), FACTS, models, dict(CC), [MATRICES])

                    if extra:
                        continue
                    t = p if isinstance(p, tuple) else (p,)
                    q = (rec('u', cls=str), rec('w', cls=str))
                    part = lambda it, o, p=p: it.getitem(it.getattr(o, 'prefix'), p)
                    yield case('read behind a prefix: ' + lab, lambda it, cls=cls, M=M, extra=extra, part=part, q=q: (it.getitem(part(it, build(it, cls, vector('data', M, var('size'), ONE), extra)), q), it.index), self.got(t + q, extra), FACTS, models, dict(CC), [MATRICES])

                    def write(it, cls=cls, M=M, extra=extra, part=part, q=q):
                        o = part(it, build(it, cls, vector('data', M, var('size'), ONE), extra))
                        it.events = []
                        it.setitem(o, q, rec('values', cls=list))
                    yield case('write behind a prefix: ' + lab, write, self.put(t + q, M, extra), FACTS, models, dict(CC), [MATRICES])
            for ref in (S3.DataReferenceRepeated, S3.DataReferenceSquared, S3.DataReferenceProduct, S3.DataReferenceSquaredRepeated):
                a = vector('matrix', M, var('size'), var('c'))

                def view(it, cls=cls, ref=ref, a=a, M=M):
                    d = rec('reference', cls=ref, **vector('', M, var('size'), ONE).spec, a=lambda it, x: a)
                    o = build(it, cls, d)
                    return (it.getattr(o, 'cat'), it.getitem(o, 'x'))
                yield case('%s on %s' % (cls.__name__, ref.__name__), view, returns((a, rec('pick', rec('reference'), P(EXTRA, ENTRY))), B('in:map')), FACTS, models, dict(CC), [MATRICES])
            NAMES = ('i', 'f', 'getStruct', 'getCanonicalIndex', 'canonicalIndices', 'getLabel', 'labels')
            yield case('%s, positions and names are those of the structure' % cls.__name__, lambda it, cls=cls, NAMES=NAMES: tuple(it.getattr(build(it, cls), x) for x in NAMES), returns(tuple(rec(x) for x in NAMES)), FACTS, models, dict(CC), [MATRICES])

    @staticmethod
    def got(p, extra):
        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'raises-only-when-unknown', not_(B('in:map'))
                return
            yield 'accepts-only-known', B('in:map')
            yield from veq('read', v, (rec('pick', rec('data'), P(extra, ENTRY)), (p if isinstance(p, tuple) else (p,),)), ctx)
            yield 'nothing is written', lift(not [e for e in it.events if e != 'map'])
        return post

    @staticmethod
    def put(p, M, extra):
        def post(it, kind, v, ctx):
            un, writes = B('unlike:' + M.__name__), [e for e in it.events if e != 'map']
            if kind == 'raise':
                yield 'raises-only-when-unknown-or-refused', or_(not_(B('in:map')), un, B('refused'))
                yield 'nothing is written', lift(not writes)
                return
            yield 'accepts-only-known', and_(B('in:map'), not_(un), not_(B('refused')))
            yield from veq('index', it.index, (p if isinstance(p, tuple) else (p,),), ctx)
            yield from veq('written', Lst(writes), Lst([(rec('data'), P(extra, ENTRY), rec('convert:' + M.__name__, rec('values', cls=list)))]), ctx)
            if M is cs.MX:
                yield 'the parts are built again after the last write', lift(bool(it.events) and it.events[-1] == 'map')
        return post


def log(it, ev):
    it.list_method(it.events, 'append', [ev], {})


class Declared(Unit):
    name = 'structured vectors with expressions'
    targets = (S3.MatrixStruct.__init__, S3.CasadiStructured.__init__)
    assumptions = (TRUST, 'contracts of EntryList, CasadiStructure.__init__ and __setitem__')

    def cases(self):
        n = var('n')
        entry = lambda k: rec('entry', k, name=lambda it, e: rec('name', e.args[0], cls=str), expr=lambda it, e: rec('expr', e.args[0]))
        bare = rec('bare', name=lambda it, e: 'x', expr=lambda it, e: None)
        DECL = Lst([])

        def entries(it, s, order=None):
            it.oblige('the declaration is used', lift(s is DECL))
            return rec('entrylist', entries=lambda it, l: it.entries, order=lambda it, l: rec('order'))

        def new(it, e, order=None):
            it.oblige('the entries are used', lift(e is it.entries))
            it.oblige('the order is used', lift(isinstance(order, Rec) and order.name == 'order'))
            return structure()

        C = {('new', S3.EntryList): entries, ('new', S3.CasadiStructure): new, S3.MasterSettable.__setitem__: lambda it, s, p, v: log(it, (p, v)), S3.VertsplitStructure.buildMap: lambda it, s, *a, **k: None}
        for cls in (S3.DMStruct, S3.SXStruct, S3.MXStruct):
            def run(it, entries, cls=cls):
                it.events, it.index, it.entries = Lst([]), None, entries
                return it.call(cls, [DECL], {})
            fail = lambda kind: [('does not raise', FALSE)] if kind == 'raise' else []

            def post(it, kind, v, ctx):
                if kind == 'raise':
                    yield 'does not raise', FALSE
                    return
                yield from veq('written', it.events, seq(n, lambda k: (rec('name', k), rec('expr', k))), ctx)
                yield from veq('initial', it.getattr(v, 'cat'), rec('nan', var('size'), ONE), ctx)
            yield case('%s of entries with expressions' % cls.__name__, lambda it, run=run: run(it, seq(n, entry)), post, FACTS, models, dict(C), [MATRICES])
            yield case('%s of an entry without expression' % cls.__name__, lambda it, run=run: run(it, Lst(list(seq(n, entry)) + [bare] + list(seq(var('m'), entry)))), raises(), FACTS, models, dict(C), [MATRICES])


class Calls(Unit):
    name = 'CasadiStructureDerivable.__call__'
    targets = (S3.CasadiStructureDerivable.__call__, S3.CasadiStructureDerivable.argtype)
    assumptions = (TRUST, 'contracts of DMStruct, MXStruct, SXStruct')

    def cases(self):
        r, c, size = var('r'), var('c'), var('size')
        made = lambda name: lambda it, s, data=None: rec(name, s, data)
        C = {('new', S3.DMStruct): made('numbers'), ('new', S3.MXStruct): made('MX'), ('new', S3.SXStruct): made('SX')}
        ones = rec('ones', size, ONE)
        one = and_(eq(r, ONE), eq(c, ONE), ne(size, ONE))

        def scaled(a):
            def post(it, kind, v, ctx):
                if kind == 'raise':
                    yield 'does not raise', FALSE
                    return
                st = rec('struct')
                if isinstance(v, Rec) and len(v.args) == 2 and isinstance(v.args[1], Rec) and v.args[1].name == 'times':
                    yield 'one number for all elements', one
                    yield from veq('numbers', v, rec('numbers', st, rec('times', ones, a)), ctx)
                else:
                    yield 'numbers for each element', not_(one)
                    yield from veq('numbers', v, rec('numbers', st, a), ctx)
            return post
        for self_ in (structure(), ):
            dm, mx, sx, oth = vector('a', cs.DM), vector('a', cs.MX), vector('a', cs.SX), rec('values', cls=list)
            fn_ = S3.CasadiStructureDerivable.__call__
            run = lambda *a: lambda it: direct(it, fn_, [structure()] + list(a))
            AT = lambda it: it
            yield case('numbers', run(dm), scaled(dm), FACTS, models, self.arg(C, dm, cs.DM), [ONES])
            yield case('number by default', run(), scaled(rec('values', cls=list)), FACTS, models, self.arg(C, rec('values', cls=list, **vector('', cs.DM).spec), cs.DM, 0), [ONES])
            yield case('MX', run(mx), returns(rec('MX', rec('struct'), mx)), FACTS, models, self.arg(C, mx, cs.MX), [ONES])
            yield case('SX', run(sx), returns(rec('SX', rec('struct'), sx)), FACTS, models, self.arg(C, sx, cs.SX), [ONES])
        U = {k: B('unlike:' + k) for k in ('DM', 'MX', 'SX')}
        at = S3.CasadiStructureDerivable.argtype
        for cls in (cs.DM, cs.MX, cs.SX):
            a = vector('a', cls)
            yield case('argument of type %s' % cls.__name__, lambda it, a=a: direct(it, at, [structure(), a]), returns((a, cls)), FACTS, models, {}, [MATRICES])

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'raises-only-when-invalid', and_(*U.values())
                return
            for k, first in (('DM', ()), ('MX', ('DM',)), ('SX', ('DM', 'MX'))):
                if v[1].__name__ == k:
                    yield 'kind ' + k, and_(not_(U[k]), *[U[f] for f in first])
                    yield from veq('value', v[0], rec('convert:' + k, rec('values')), ctx)
                    return
            yield 'kind', FALSE
        yield case('argument of another type', lambda it: direct(it, at, [structure(), rec('values', cls=list)]), post, FACTS, models, {}, [MATRICES])

    @staticmethod
    def arg(C, a, cls, given=None):
        def argtype(it, s, x):
            it.oblige('argument', lift(x is a if given is None else x == given))
            return (rec(a.name, cls=cls, **a.spec), cls)
        C = dict(C)
        C[S3.CasadiStructureDerivable.argtype] = argtype
        return C


def ones_(it, r, c):
    return rec('ones', lift(r), lift(c), cls=cs.DM, __mul__=lambda it, o, x: rec('times', o, x, cls=cs.DM))


ones_.always = True
ONES = {cs.DM.ones: ones_}


class FromDict(Unit):
    name = 'structured vectors from dictionaries (elements)'
    targets = (S3.CasadiStructureDerivable.__call__,)
    assumptions = (TRUST, 'contracts of DMStruct and __setitem__')
    bound = 'structures with at most 3 entries'

    def cases(self):
        import itertools
        for n in range(4):
            keys = ['k%d' % i for i in range(n)]
            st = rec('struct', cls=S3.CasadiStructure, struct=lambda it, s: s, keys=lambda it, s, keys=keys: Model_(lambda it: Lst(list(keys))))

            def new(it, s, data=None):
                it.events = Lst([])
                return rec('numbers', s, data, __setitem__=lambda it, m, k, v: log(it, (k, v)))
            C = {('new', S3.DMStruct): new}
            for given in [list(p) for p in itertools.permutations(keys)] + [keys[1:], keys + ['other'], keys[:-1] + ['other']]:
                d = Dct((k, rec('value', k)) for k in given)

                def post(it, kind, v, ctx, given=given, keys=keys, st=st):
                    yield 'accepts-only-valid', lift((kind != 'raise') == (set(given) == set(keys)))
                    if kind != 'raise':
                        yield from veq('result', v, rec('numbers', st, None), ctx)
                        yield 'all values', lift(sorted(e[0] for e in it.events) == sorted(keys) and all(e[1].args == (e[0],) for e in it.events))
                if given == keys == [] or given or keys:
                    yield case('keys %s for %s' % (','.join(given), ','.join(keys)), lambda it, d=d, st=st: direct(it, S3.CasadiStructureDerivable.__call__, [st, d]), post, FACTS, models, dict(C))


class FromDictN(Unit):
    name = 'structured vectors from dictionaries'
    targets = (S3.CasadiStructureDerivable.__call__,)
    assumptions = (TRUST, 'contracts of DMStruct and __setitem__', 'names are compared by an integer each (injective)', 'Python: a dictionary maps each of its different keys to a value')

    def cases(self):
        n, m = var('n'), var('m')
        names, given = seq(n, lambda k: named('e', k)), seq(m, lambda k: named('d', k))
        value = lambda k: rec('value', k)
        st = rec('struct', cls=S3.CasadiStructure, struct=lambda it, s: s, keys=lambda it, s: Model_(lambda it: Lst(names)))

        def get(it, d, k):
            if not it.branch(it.truth(it.contains(Lst(given), k))):
                raise PyRaise(KeyError)
            return value(k)
        d = rec('dict', cls=dict, keys=lambda it, d: Model_(lambda it: Lst(given)), items=lambda it, d: Model_(lambda it: seq(m, lambda k: (named('d', k), value(named('d', k))))),
                values=lambda it, d: Model_(lambda it: seq(m, lambda k: value(named('d', k)))), __iter__=lambda it, d: Lst(given), __len__=lambda it, d: m, __getitem__=get,
                __contains__=lambda it, d, k: it.contains(Lst(given), k))

        def new(it, s, data=None):
            it.events = Lst([])
            return rec('numbers', s, data, __setitem__=lambda it, m, k, v: log(it, (k, v)))

        def post(it, kind, v, ctx):
            ok = and_(NPM.within(it, given, names), NPM.within(it, names, given))
            if kind == 'raise':
                yield 'raises-only-when-invalid', not_(ok)
                return
            yield 'accepts-only-valid', ok
            yield from veq('result', v, rec('numbers', st, None), ctx)
            if it.events.rec is not None or any(isinstance(x, FSeg) for x in it.events):
                raise OutOfReach('values assigned in another way')
            keys = []
            for b, e in NPM.occurrences(it.events):
                c = ctx
                for q, size in b:
                    c = c.rng(q, ZERO, size)
                yield from veq('value under the key', e[1], value(e[0]), c)
            keys = [Seg(x.n, x.var, [e[0] for e in x.elems]) if isinstance(x, Seg) else x[0] for x in it.events]
            yield 'only values of the structure', NPM.within(it, keys, names)
            yield 'all values', NPM.within(it, names, keys)
        i, j = fresh('i'), fresh('j')
        code = lambda t, k: app('code:name:' + t, k, sort='I')
        differ = [forall(i, ZERO, k, forall(j, ZERO, k, or_(eq(i, j), ne(code(t, i), code(t, j))))) for t, k in (('e', n), ('d', m))]

        def models(rng):
            for _ in range(4):
                k = rng.randint(0, 3)
                yield mkmodel({'n': k, 'm': rng.choice((k, k, k + 1))}, funs={'code:name:e': lambda x: Fraction(x), 'code:name:d': lambda x, k=k: Fraction(k - x)})
        yield case('any keys', lambda it: direct(it, S3.CasadiStructureDerivable.__call__, [st, d]), post, [le(0, n), le(0, m)] + differ, models, {('new', S3.DMStruct): new})


class Vec(Unit):
    name = 'vec'
    targets = (S3.vec,)

    def cases(self):
        n = var('n')
        inner = lambda k: seq(app('len', k, sort='I'), lambda j: rec('x', k, j))
        flat = lambda k: seq(app('flat', k, sort='I'), lambda j: rec('y', k, j, cls=int))

        def sub(it, e):
            if not (isinstance(e, list) and len(e) == 1 and isinstance(e[0], Seg) and e[0].elems[0].name == 'x'):
                raise OutOfReach('vec of another list')
            return flat(e[0].elems[0].args[0])

        def ms(rng):
            for m in models(rng):
                m.funs['len'] = m.funs['flat'] = lambda k: Fraction(2)
                yield m
        facts = FACTS + [forall(fresh('k'), ZERO, n, TRUE)]
        yield case('numbers', lambda it: direct(it, S3.vec, [seq(n, lambda k: rec('y', k, cls=int))]), returns(seq(n, lambda k: rec('y', k))), FACTS, ms)
        sizes = lambda f: (lambda k: forall(k, ZERO, n, le(ZERO, app(f, k, sort='I'))))(fresh('k'))
        yield case('any number of lists', lambda it: direct(it, S3.vec, [seq(n, inner)]), returns(Lst([Seg(n, (k := fresh('k')), list(flat(k)))])), FACTS + [sizes('len'), sizes('flat')], ms, {S3.vec: sub})
        for d in (1, 2, 3):
            yield case('%d lists' % d, lambda it, d=d: direct(it, S3.vec, [Lst([inner(I(k)) for k in range(d)])]), returns(Lst([x for k in range(d) for x in flat(I(k))])), FACTS + [le(0, app('flat', I(k), sort='I')) for k in range(d)], ms, {S3.vec: sub})


class Prefixes(Unit):
    name = 'Prefixer'
    targets = (S3.Prefixer.__init__, S3.Prefixer.__getitem__, S3.Prefixer.__setitem__, S3.Prefixer.__call__, S3.PrefixConstructor.__init__, S3.PrefixConstructor.__getitem__)

    def cases(self):
        pre = seq(var('m'), lambda k: rec('pre', k), tuple)
        st = rec('vector', cls=S3.DMStruct, __getitem__=lambda it, s, p: rec('read', p), __setitem__=lambda it, s, p, v: log(it, (p, v)), __DM__=lambda it, s: rec('cast'))

        def new(it, p=pre):
            it.events = Lst([])
            return it.getitem(it.call(S3.PrefixConstructor, [st], {}), p)
        one = rec('name', cls=str)
        path = seq(var('n'), lambda k: rec('p', k), tuple)
        for plabel, pr, pt in (('prefix', pre, pre), ('one name', one, (one,))):
            for label, p, t in (('name', one, (one,)), ('tuple', path, path)):
                yield case('read, %s, %s' % (plabel, label), lambda it, pr=pr, p=p: it.getitem(new(it, pr), p), returns(rec('read', pt + t)), FACTS, models)

                def write(it, pr=pr, p=p):
                    it.setitem(new(it, pr), p, rec('value'))
                    return it.events
                yield case('write, %s, %s' % (plabel, label), write, returns(Lst([(pt + t, rec('value'))])), FACTS, models)
            for kind, K in (('DM', S3.DMStruct), ('SX', S3.SXStruct), ('MX', S3.MXStruct)):
                def cast(it, pr=pr, kind=kind, K=K):
                    v = rec('vector', cls=K, __getitem__=st.spec['__getitem__'], master=lambda it, v: rec('master', cls=list), **{'__%s__' % kind: lambda it, s: rec('cast')})
                    p = it.getitem(it.call(S3.PrefixConstructor, [v], {}), pr)
                    return it.call(it.getattr(p, '__%s__' % kind), [], {})
                yield case('conversion to %s, %s' % (kind, plabel), cast, returns(rec('read', pt)), FACTS, models)
            yield case('all, ' + plabel, lambda it, pr=pr: it.call(new(it, pr), [], {}), returns(rec('read', pt)), FACTS, models)


class Getters(Unit):
    name = 'positions by power index'
    targets = (S3.CasadiStructure.__init__, IMD.__call__, FID.__call__)
    assumptions = ('contracts of Structure.__init__, traverseCanonicalIndex, performExtraIndex, vec; traverseByPowerIndex applies the dispatcher to the selected elements (C20)',)

    def cases(self):
        ST = S3.Structure
        C = {ST.__init__: lambda it, s, *a, **k: None, ST.traverseCanonicalIndex: lambda it, s, limit=1000: Lst([]), ST.traverseByPowerIndex: lambda it, s, *a, **k: self.step(it, s, *a, **k),
             PEI: lambda it, i, extraIndex=None, entry=None, flip=False: index_matrix('positions', rec('some'), extraIndex, entry, flip), S3.vec: lambda it, x: rec('flat', x)}
        p = rec('name', cls=str)
        q = seq(var('n'), lambda k: rec('p', k), tuple)
        want = index_matrix('positions', rec('some'), EXTRA, ENTRY, False)
        for label, x, t in (('name', p, (p,)), ('tuple', q, q)):
            yield case('i, ' + label, lambda it, x=x: (it.getitem(it.getattr(it.call(S3.CasadiStructure, [rec('entries')], {}), 'i'), x), it.index), returns((want, t), B('in:map')), FACTS, models, dict(C))

            def post(it, kind, v, ctx, t=t):
                if kind == 'raise':
                    yield 'raises-only-when-unknown', or_(not_(B('in:map')), not_(B('dense')))
                    return
                yield from veq('positions', v, (rec('flat', seq(var('nz'), lambda k: app('pos', k, sort='I'))), t), ctx)
            yield case('f, ' + label, lambda it, x=x: (it.getitem(it.getattr(it.call(S3.CasadiStructure, [rec('entries')], {}), 'f'), x), it.index), post, FACTS, models, dict(C))

    @staticmethod
    def step(it, s, powerIndex, dispatcher=None, payload=None):
        it.index = powerIndex
        s.attrs['map'] = in_map('map')
        return it.call(dispatcher, [payload, CAN], {'extraIndex': EXTRA, 'entry': ENTRY})


UNITS = [Delegation, ExtraIndex, Pick, Getter, Setter, Positions, Container, Declared, Calls, FromDict, FromDictN, Vec, Prefixes, Getters]

from . import concrete
concrete.validate(UNITS, layout=('index dispatchers', 'positions by power index'), session=('GetterDispatcher.__call__', 'SetterDispatcher.__call__', 'structured vectors', 'delegation', 'performExtraIndex', 'correct_vector_indexing', 'CasadiStructureDerivable.__call__'))
