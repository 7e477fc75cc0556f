"""C21: symbolic structures and structures built from expressions."""
from pyvc.interp import Star
from .structs import *
from . import c19
from .c18 import _word
import casadi as cs

r_ = fresh('r')
TRUST = 'casadi: X.sym(name, k) is a column of k new symbols, vertcat stacks columns, vertsplit cuts rows at the given offsets, m.nz[:] lists the nonzeros, vec(m) stacks the columns of a dense matrix, X(0, 1) has no rows'
FACTS = [le(0, var(n)) for n in ('Q', 'P', 'R', 'n', 'm', 'size', 'd')] + [forall(r_, ZERO, var('Q'), le(0, app('nnz', r_, sort='I')))]


def models(rng):
    for _ in range(4):
        yield mkmodel({'Q': rng.randint(0, 3), 'P': rng.randint(0, 2), 'R': rng.randint(0, 2), 'n': rng.randint(0, 2), 'm': rng.randint(0, 2), 'size': rng.randint(0, 4), 'd': rng.randint(0, 2), 'len:I': 1},
                      funs={'nnz': lambda q: Fraction(int(q) % 3), 'nnz:A': lambda q: Fraction(2), 'nnz:B': lambda q: Fraction(1), 'size:S': lambda q: Fraction(3), 'len:I': lambda *a: Fraction(1), 'dense?': lambda q: int(q) % 2 == 0,
                            'nested': lambda q: int(q) % 3 == 1, 'bare': lambda q: int(q) % 5 == 0, 'iscol': lambda q: int(q) % 2 == 0, 'ssize': lambda q: Fraction(2)})


def is_all(i):
    return isinstance(i, slice) and i == slice(None)


# ------------------------------------------------------------------ symbols
def symbols(it, name, *dims):
    """new symbols"""
    it.oblige('one column', lift(len(dims) == 1 or len(dims) == 2 and dims[1] == 1))
    k = lift(dims[0])
    return rec('symbols', None, k, cls=cs.SX, nz=lambda it, m: rec('nz', m, __getitem__=lambda it, z, i: nzs(z.args[0]) if is_all(i) else oor()))


def nzs(m):
    return rec('symbols', *m.args, cls=m.cls)


def oor(msg='part of a matrix'):
    raise OutOfReach(msg)


def empty(it, *a):
    if len(a) != 2 or not all(type(x) is int for x in a):
        raise OutOfReach('matrix')
    return rec('no rows') if tuple(a) == (0, 1) else rec('zeros', *a)


def vertcat_(it, *a):
    parts = [y for x in a for y in (x.v if isinstance(x, Star) else [x])]
    parts = [x for x in parts if not (isinstance(x, Rec) and x.name == 'no rows')]
    return rec('vertcat', Lst(parts), cls=cs.SX, __setitem__=lambda it, m, i, v: c19.log(it, (i, v)))


SYMS = {cs.SX.sym: symbols, cs.SX: empty, cs.vertcat: vertcat_}
for _f in SYMS.values():
    _f.always = True


def structure(**kw):
    s = c19.structure()
    s.spec.update(kw)
    return s


ORDER = rec('given order')


def declared(st, decl=None):
    """contracts of EntryList and CasadiStructure"""
    def entries(it, s, order=None):
        if decl is not None:
            it.oblige('the declaration is used', lift(s is decl))
        it.oblige('the given order is used', lift(order is it.given))
        return rec('entrylist', entries=lambda it, l: it.entries, order=lambda it, l: rec('order'))

    def new(it, e, order=None):
        it.oblige('the entries are used', lift(e is it.entries))
        it.oblige('the order is used', lift(isinstance(order, Rec) and order.name == 'order'))
        return st()
    return {('new', S3.EntryList): entries, ('new', S3.CasadiStructure): new}


class Plain(Unit):
    name = 'CasadiStructured.__init__'
    targets = (S3.CasadiStructured.__init__, S3.Structured.__init__)
    assumptions = ('contracts of EntryList and CasadiStructure.__init__',)

    def cases(self):
        DECL = Lst([])
        NAMES = ('i', 'f', 'getStruct', 'getCanonicalIndex', 'canonicalIndices', 'getLabel', 'labels')
        for order in (None, ORDER):
            def run(it, order=order):
                it.entries, it.given = seq(var('n'), lambda k: rec('entry', k)), order
                o = it.call(S3.CasadiStructured, [DECL], {} if order is None else {'order': order})
                return tuple(it.getattr(o, x) for x in NAMES) + (it.getattr(o, 'size'), it.getattr(o, 'shape'), it.call(it.getattr(o, 'keys'), [], {}))
            yield case('declaration' + (' in a given order' if order is not None else ''), run,
                       returns(tuple(rec(x) for x in NAMES) + (var('size'), (var('size'), ONE), seq(var('n'), lambda k: rec('key', k)))), FACTS, models, declared(lambda: structure(), DECL))


class SymSX(Unit):
    name = 'ssymStruct.__init__'
    targets = (S3.ssymStruct.__init__, S3.CasadiStructured.__init__)
    assumptions = (TRUST, 'contracts of EntryList, CasadiStructure, traverseCanonicalIndex, getStructEntryByCanonicalIndex')

    def cases(self):
        Q, n, m = var('Q'), var('n'), var('m')
        pat = lambda e: rec('pattern', e.args[0], cls=cs.Sparsity, nnz=lambda it, p: Model_(lambda it: app('nnz', p.args[0], sort='I')))

        def lookup(it, i):
            i = list(i)
            if not (len(i) == 1 and isinstance(i[0], Seg) and isinstance(i[0].elems[0], Rec) and i[0].elems[0].name == 'I'):
                raise OutOfReach('index of an entry')
            return rec('entry', i[0].elems[0].args[0], sparsity=lambda it, e: pat(e))
        positions = lambda it, s: rec('i', __getitem__=lambda it, x, k: rec('positions', k))
        st = lambda: structure(traverseCanonicalIndex=lambda it, s: Model_(lambda it, limit=1000: seq(Q, lambda q: _word('I', q))), getStructEntryByCanonicalIndex=lambda it, s: Model_(lookup), i=positions)
        entry = lambda tag, **kw: (lambda k: rec(tag, k, cls=S3.CasadiStructEntry, name=lambda it, e: rec('name', *e.args, cls=str), **kw))
        none, some = (lambda it, e: None), (lambda what: lambda it, e: rec(what, *e.args))
        plain, given, bad = entry('plain', sym=none, expr=none), entry('given', sym=some('sym'), expr=none), entry('bad', sym=none, expr=some('expr'))
        DECL = Lst([])

        def run(es, order=None):
            def run(it):
                it.events, it.entries, it.given = Lst([]), es(), order
                return it.call(S3.ssymStruct, [DECL], {} if order is None else {'order': order})
            return run

        def new(it, e, order=None):
            it.oblige('the entries are used', lift(e is it.entries))
            it.oblige('the order is used', lift(isinstance(order, Rec) and order.name == 'order'))
            return st()

        def entries(it, s, order=None):
            it.oblige('the declaration is used', lift(s is DECL))
            it.oblige('the given order is used', lift(order is it.given))
            return rec('entrylist', entries=lambda it, l: it.entries, order=lambda it, l: rec('order'))
        C = {('new', S3.EntryList): entries, ('new', S3.CasadiStructure): new}

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'does not raise', FALSE
                return
            yield from veq('symbols of all elements', it.getattr(v, 'cat'), rec('vertcat', Lst(list(seq(Q, lambda q: rec('symbols', None, app('nnz', q, sort='I')))))), ctx)
            yield from veq('given symbols', it.events, seq(m, lambda k: (rec('positions', rec('name', k)), rec('sym', k))), ctx)
        yield case('entries with and without given symbols', run(lambda: Lst(list(seq(n, plain)) + list(seq(m, given)))), post, FACTS, models, dict(C), [SYMS])
        yield case('given order', run(lambda: Lst(list(seq(n, plain)) + list(seq(m, given))), ORDER), post, FACTS, models, dict(C), [SYMS])
        yield case('given symbols first', run(lambda: Lst(list(seq(m, given)) + list(seq(n, plain)))), post, FACTS, models, dict(C), [SYMS])
        yield case('an entry with an expression', run(lambda: Lst(list(seq(n, plain)) + list(seq(m, given)) + [bad(I(0))] + list(seq(n, plain)))), raises(), FACTS, models, dict(C), [SYMS])


class SymMX(Unit):
    name = 'msymStruct.__init__'
    targets = (S3.msymStruct.__init__, S3.CasadiStructured.__init__, S3.msymStruct.numel, S3.msymStruct.is_column, S3.msymStruct.is_valid_input, S3.msymStruct.is_dense)
    assumptions = (TRUST, 'contracts of EntryList, CasadiStructure, buildMap')

    def cases(self):
        n = var('n')
        entry = lambda tag, **kw: (lambda k: rec(tag, k, cls=S3.CasadiStructEntry, **kw))
        none, some = (lambda it, e: None), (lambda what: lambda it, e: rec(what, *e.args))
        plain, bad, given = entry('plain', sym=none, expr=none), entry('bad', sym=none, expr=some('expr')), entry('given', sym=some('sym'), expr=none)
        DECL = Lst([])

        def sym(it, name, *dims):
            d = [lift(x) for x in dims] + [ONE] * (2 - len(dims))
            return rec('MX symbols', *d, cls=cs.MX)
        sym.always = True

        def build(it, s, *a, **k):
            it.events.append('map')
            it.oblige('the whole vector', lift(not a and not k))
            it.built = it.getattr(s, 'cat')

        def run(es, order=None):
            def run(it):
                it.events, it.entries, it.given, it.built = [], es(), order, rec('nothing')
                o = it.call(S3.msymStruct, [DECL], {} if order is None else {'order': order})
                return (it.getattr(o, 'cat'), it.built, Lst(it.events), it.getattr(o, 'size'), *[it.call(it.getattr(o, k), [], {}) for k in ('numel', 'is_column', 'is_valid_input', 'is_dense')])
            return run
        C = {**declared(lambda: structure(), DECL),
             S3.VertsplitStructure.buildMap: build}
        V = rec('MX symbols', var('size'), ONE)
        yield case('symbols', run(lambda: seq(n, plain)), returns((V, V, Lst(['map']), var('size'), var('size'), True, True, True)), FACTS, models, dict(C), [{cs.MX.sym: sym}])
        yield case('symbols in a given order', run(lambda: seq(n, plain), ORDER), returns((V, V, Lst(['map']), var('size'), var('size'), True, True, True)), FACTS, models, dict(C), [{cs.MX.sym: sym}])
        for label, b in (('an expression', bad), ('a given symbol', given)):
            yield case('an entry with ' + label, run(lambda b=b: Lst(list(seq(n, plain)) + [b(I(0))] + list(seq(var('m'), plain)))), raises(), FACTS, models, dict(C), [{cs.MX.sym: sym}])


class BuildMap(Unit):
    name = 'VertsplitStructure.buildMap'
    targets = (S3.VertsplitStructure.buildMap, S3.StructEntry.isPrimitive)
    assumptions = (TRUST, 'contract of traverseCanonicalIndex and, for nested structures, of buildMap itself')

    def cases(self):
        import itertools
        yield from self.mixed()
        N = {'A': var('Q'), 'B': var('P'), 'S': var('R')}
        sz = {'A': lambda q: app('nnz:A', q, sort='I'), 'B': lambda q: app('nnz:B', q, sort='I'), 'S': lambda q: app('size:S', q, sort='I')}
        # A: part of the vector as it is, B: to be brought into the pattern, S: sub-structure
        idx = lambda t, q: Lst([rec('I' + t, q, cls=str)])
        facts = FACTS + [forall(r_, ZERO, N[t], le(0, sz[t](r_))) for t in N]
        pre = seq(var('d'), lambda k: rec('pre', k), tuple)

        def pattern(t, q):
            return rec('pattern', t, q, cls=cs.Sparsity, nnz=lambda it, p: Model_(lambda it: sz[p.args[0]](p.args[1])), __eq__=lambda it, a, b: same(a, b), __ne__=lambda it, a, b: not same(a, b))

        def same(a, b):
            x = a if a.name == 'pattern' else b
            if {a.name, b.name} == {'pattern', 'column'}:
                return x.args[0] == 'A'
            if a.name == b.name == 'column':
                return True
            raise OutOfReach('comparison of patterns')

        def column(it, n, m):
            it.oblige('a column', lift(m == 1))
            return rec('column', lift(n), cls=cs.Sparsity, nnz=lambda it, p: Model_(lambda it: p.args[0]), __eq__=lambda it, a, b: same(a, b), __ne__=lambda it, a, b: not same(a, b))

        def entry(it, i):
            x = list(i)
            if len(x) != 1 or not isinstance(x[0], Rec) or x[0].name not in ('IA', 'IB', 'IS'):
                raise OutOfReach('index of an entry')
            t, q = x[0].name[1], x[0].args[0]
            if t == 'S':
                return rec('entry', t, q, cls=S3.CasadiStructEntry, struct=lambda it, e: rec('sub', e.args[1], size=lambda it, s: sz['S'](s.args[0])), sparsity=lambda it, e: None)
            return rec('entry', t, q, cls=S3.CasadiStructEntry, struct=lambda it, e: None, sparsity=lambda it, e: pattern(e.args[0], e.args[1]))

        def part(a, b):
            return rec('part', a, b, sparsity=lambda it, p: Model_(lambda it: rec('column', sub(p.args[1], p.args[0]), cls=cs.Sparsity, __eq__=lambda it, a, b: same(a, b), __ne__=lambda it, a, b: not same(a, b))))

        def split(it, x, at):
            it.oblige('the whole parent is cut', lift(isinstance(x, Rec) and x.name == 'parent'))
            parts = list(at)
            return parts_of(it, parts)

        def parts_of(it, at):
            """[at[q], at[q+1]) for all q"""
            out = []
            for i, x in enumerate(at[:-1]):
                nxt = at[i + 1]
                if isinstance(x, Seg):
                    if len(x.elems) != 1:
                        raise OutOfReach('offsets')
                    k = fresh('k')
                    first = nxt.at(ZERO) if isinstance(nxt, Seg) else nxt
                    # the offset after the last of this run is the first of the next one
                    it.oblige('offsets go on', implies(lt(ZERO, x.n), eq(lift(vsubst(x.elems[0], {x.var: x.n})), lift(first))))
                    out.append(Seg(x.n, k, [part(vsubst(x.elems[0], {x.var: k}), vsubst(x.elems[0], {x.var: add(k, 1)}))]))
                else:
                    raise OutOfReach('offsets')
            return Lst(out)

        def MX_(it, *a):
            if len(a) == 2 and isinstance(a[0], Rec) and a[0].cls is cs.Sparsity:
                return rec('shaped', a[0], a[1])
            raise OutOfReach('MX')
        dense_ = column
        tab = {cs.vertsplit: split, cs.MX: MX_, cs.Sparsity.dense: dense_}
        for f in tab.values():
            f.always = True

        for order in itertools.permutations('ABS'):
            off, offs = ZERO, {}
            for t in order:
                offs[t] = off
                off = add(off, sum_(r_, ZERO, N[t], sz[t](r_)))
            total = off
            ids = lambda order=order: Lst([Seg(N[t], (q := fresh('q')), [idx(t, q)]) for t in order])

            def run(top, how, order=order, total=total, ids=ids):
                def run(it):
                    it.events = Lst([])
                    parent = rec('parent', cls=cs.MX, size1=lambda it, p: Model_(lambda it: total))
                    st = rec('structure', cls=S3.CasadiStructure, traverseCanonicalIndex=lambda it, s: Model_(lambda it, limit=1000: self.limited(it, limit, ids)), getStructEntryByCanonicalIndex=lambda it, s: Model_(entry))
                    log_ = rec('objects', __setitem__=lambda it, d, k, v: c19.log(it, ('object', k, v)))
                    o = Obj(S3.msymStruct, {'struct': st if top else rec('other'), 'master': parent, 'priority_object_map': log_})
                    if how == 'reference':
                        o.attrs['master'] = Obj(S3.DataReferenceRepeated, {'v': parent, 'a': rec('a')})
                    it.o = o
                    kw = {} if top else dict(struct=st, parentIndex=pre, parent=parent)
                    direct(it, S3.VertsplitStructure.buildMap, [o], kw)
                return run

            def post(top, order=order, offs=offs):
                def post(it, kind, v, ctx):
                    if kind == 'raise':
                        yield 'does not raise', FALSE
                        return
                    want = []
                    p = () if top else pre
                    for t in order:
                        q = fresh('q')
                        K = lambda q, t=t: add(offs[t], sum_(r_, ZERO, q, sz[t](r_)))
                        pt = part(K(q), K(add(q, 1)))
                        key = p + (rec('I' + t, q),)
                        if t == 'S':
                            want.append(Seg(N[t], q, [('sub', rec('sub', q), key, pt), ('object', key, pt)]))
                        else:
                            want.append(Seg(N[t], q, [('object', key, pt if t == 'A' else rec('shaped', pattern(t, q), pt))]))
                    yield from veq('parts', it.events, Lst(want), ctx)
                return post

            def again(it, s, struct=None, parentIndex=(), parent=None):
                it.oblige('the same map', lift(s is it.o))
                c19.log(it, ('sub', struct, parentIndex, parent))
            C = {S3.VertsplitStructure.buildMap: again}
            for top, how in ((True, 'vector'), (True, 'reference'), (False, 'part')):
                yield case('%s, %s' % (''.join(order), how), run(top, how), post(top), facts, models, dict(C), [tab])

    def mixed(self):
        """element q is a scalar without a pattern, a column, a matrix or a sub-structure"""
        Q = var('Q')
        holds = lambda name: lambda q: app(name, q, sort='B')
        number = lambda name: lambda q: app(name, q, sort='I')
        nested, bare, iscol, nnz, ssize = holds('nested'), holds('bare'), holds('iscol'), number('nnz'), number('ssize')
        size = lambda q: ite(nested(q), ssize(q), ite(bare(q), 1, nnz(q)))
        off = lambda q: sum_(r_, ZERO, q, size(r_))
        facts = FACTS + [forall(r_, ZERO, Q, and_(le(0, nnz(r_)), le(0, ssize(r_))))]
        pre = seq(var('d'), lambda k: rec('pre', k), tuple)

        def same(a, b):
            if a.name == b.name == 'column':
                return eq(a.args[0], b.args[0])
            if {a.name, b.name} == {'pattern', 'column'}:
                p, c = (a, b) if a.name == 'pattern' else (b, a)
                return and_(iscol(p.args[0]), eq(nnz(p.args[0]), c.args[0]))
            raise OutOfReach('comparison of patterns')
        compare = dict(__eq__=lambda it, a, b: same(a, b), __ne__=lambda it, a, b: not_(same(a, b)))
        column = lambda n: rec('column', lift(n), cls=cs.Sparsity, nnz=lambda it, p: Model_(lambda it: p.args[0]), **compare)
        pattern = lambda q: rec('pattern', q, cls=cs.Sparsity, nnz=lambda it, p: Model_(lambda it: nnz(p.args[0])), **compare)
        substruct = lambda q: rec('sub', q, size=lambda it, s: ssize(s.args[0]))
        part = lambda a, b, n: rec('part', a, b, n, sparsity=lambda it, p: Model_(lambda it: column(p.args[2])))

        def entry(it, i):
            x = list(i)
            if len(x) != 1 or not isinstance(x[0], Rec) or x[0].name != 'I':
                raise OutOfReach('index of an entry')
            q = x[0].args[0]
            return rec('entry', q, cls=S3.CasadiStructEntry, struct=lambda it, e: rec('ite', nested(e.args[0]), substruct(e.args[0]), None),
                       sparsity=lambda it, e: rec('ite', or_(nested(e.args[0]), bare(e.args[0])), None, pattern(e.args[0])))

        def dense(it, n, m):
            it.oblige('a column', lift(m == 1))
            return column(n)

        def split(it, x, at):
            it.oblige('the whole parent is cut', lift(isinstance(x, Rec) and x.name == 'parent'))
            if len(at) != 2 or not isinstance(at[0], Seg) or len(at[0].elems) != 1 or at[0].nested:
                raise OutOfReach('offsets')
            start = lambda k: lift(at[0].at(k))
            it.oblige('offsets go on', eq(start(at[0].n), lift(at[1])))
            k = fresh('k')
            it.oblige('parts of the sizes of the elements', eq(sub(start(add(k, 1)), start(k)), size(k)), it.ctx.rng(k, ZERO, at[0].n))
            return seq(at[0].n, lambda k: part(start(k), start(add(k, 1)), size(k)))

        def MX_(it, *a):
            a = [it.force(x) for x in a]
            if len(a) == 2 and isinstance(a[0], Rec) and a[0].cls is cs.Sparsity:
                return rec('shaped', a[0], a[1])
            raise OutOfReach('MX')
        tab = {cs.vertsplit: split, cs.MX: MX_, cs.Sparsity.dense: dense}
        for f in tab.values():
            f.always = True
        ids = lambda: seq(Q, lambda q: Lst([rec('I', q, cls=str)]))

        def run(top, how):
            def run(it):
                it.events = Lst([])
                parent = rec('parent', cls=cs.MX, size1=lambda it, p: Model_(lambda it: off(Q)))
                st = rec('structure', cls=S3.CasadiStructure, traverseCanonicalIndex=lambda it, s: Model_(lambda it, limit=1000: self.limited(it, limit, ids)), getStructEntryByCanonicalIndex=lambda it, s: Model_(entry))
                o = Obj(S3.msymStruct, {'struct': st if top else rec('other'), 'master': parent, 'priority_object_map': rec('objects', __setitem__=lambda it, d, k, v: c19.log(it, ('object', k, v)))})
                if how == 'reference':
                    o.attrs['master'] = Obj(S3.DataReferenceRepeated, {'v': parent, 'a': rec('a')})
                it.o = o
                direct(it, S3.VertsplitStructure.buildMap, [o], {} if top else dict(struct=st, parentIndex=pre, parent=parent))
            return run

        def post(top):
            def post(it, kind, v, ctx):
                if kind == 'raise':
                    yield 'does not raise', FALSE
                    return
                q = fresh('q')
                pt = part(off(q), off(add(q, 1)), size(q))
                key = (() if top else pre) + (rec('I', q),)
                yield from veq('parts', it.events, Lst([Seg(Q, q, [
                    Seg(ite(nested(q), 1, 0), fresh('once'), [('sub', substruct(q), key, pt), ('object', key, pt)]),
                    Seg(ite(nested(q), 0, 1), fresh('once'), [('object', key, rec('ite', or_(bare(q), iscol(q)), pt, rec('shaped', pattern(q), pt)))])])]), ctx)
            return post

        def again(it, s, struct=None, parentIndex=(), parent=None):
            it.oblige('the same map', lift(s is it.o))
            c19.log(it, ('sub', struct, parentIndex, parent))
        for top, how in ((True, 'vector'), (True, 'reference'), (False, 'part')):
            yield case('all kinds in any order, ' + how, run(top, how), post(top), facts, models, {S3.VertsplitStructure.buildMap: again}, [tab])

    @staticmethod
    def limited(it, limit, ids):
        it.oblige('one level', lift(limit == 1))
        return ids()


class Veccat(Unit):
    name = 'MXVeccatStruct (elements)'
    targets = (S3.MXVeccatStruct.__init__, S3.MXVeccatStruct.__setitem__, S3.MXVeccatStruct.master, S3.MXVeccatStruct.numel, S3.MXVeccatStruct.is_column, S3.MXVeccatStruct.is_dense)
    assumptions = (TRUST, 'contracts of EntryList, CasadiStructure; traverseByPowerIndex applies the dispatcher to the selected elements (C20)')
    bound = 'structures of three elements, up to two replacements'

    IDS = [('x',), ('y', 0), ('y', 1)]

    def cases(self):
        IDS = self.IDS
        PARTS = {('x',): [0], ('y',): [1, 2], ('y', 0): [1], ('y', 1): [2], (): [0, 1, 2]}

        def expr(tag, q):
            return rec('expr', tag, q, cls=cs.MX, shape=lambda it, e: rec('pattern', *e.args, __eq__=shaped, __ne__=lambda it, a, b: not_(shaped(it, a, b))), sparsity=lambda it, e: Model_(lambda it: rec('pattern', *e.args, __eq__=same, __ne__=lambda it, a, b: not_(same(it, a, b)), dim=lambda it, p: Model_(lambda it: 'dim'))),
                       is_dense=lambda it, e: Model_(lambda it: var('dense:%s%d' % e.args, 'B')), nz=lambda it, e: rec('nz', e, __getitem__=lambda it, z, i: rec('nonzeros', z.args[0]) if is_all(i) else oor()))

        def same(it, a, b):
            p = [x for x in (a, b) if x.name == 'pattern']
            if len(p) != 1:
                raise OutOfReach('patterns')
            return var('fits:%s%d' % p[0].args, 'B')

        def shaped(it, a, b):
            p = [x for x in (a, b) if x.name == 'pattern']
            if len(p) != 1:
                raise OutOfReach('shapes')
            # equal patterns have equal shapes
            return or_(var('fits:%s%d' % p[0].args, 'B'), var('shaped:%s%d' % p[0].args, 'B'))

        def index(q):
            return rec('index', q, shape=lambda it, m: rec('own', m.args[0], __eq__=shaped, __ne__=lambda it, a, b: not_(shaped(it, a, b))), sparsity=lambda it, m: Model_(lambda it: rec('own', m.args[0], __eq__=same, __ne__=lambda it, a, b: not_(same(it, a, b)), dim=lambda it, p: Model_(lambda it: 'dim'))))

        def traverse(it, p, dispatcher=None, payload=None):
            if p == ('x', 'deeper'):
                return it.call(dispatcher, [expr(payload.name[4:], 0), p], {})
            if p not in PARTS and p[:-1] not in PARTS or not (isinstance(payload, Rec) and payload.name[:4] == 'all:'):
                raise OutOfReach('power index')
            if p not in PARTS:
                return it.call(dispatcher, [expr(payload.name[4:], 0), p[:-1]], {'extraIndex': (p[-1],)})
            for q in PARTS[p]:
                it.call(dispatcher, [expr(payload.name[4:], q), IDS[q]], {})

        def st():
            return structure(traverseCanonicalIndex=lambda it, s: Model_(lambda it, limit=1000: BuildMap.limited(it, limit, lambda: Lst([list(i) for i in IDS]))), traverseByPowerIndex=lambda it, s: Model_(traverse),
                             map=lambda it, s: Dct((i, index(q)) for q, i in enumerate(IDS)))
        pay = lambda tag: rec('all:' + tag)
        entry = lambda nm, e: rec('entry', nm, cls=S3.CasadiStructEntry, name=lambda it, x: nm, expr=lambda it, x: e)
        C = declared(st)
        tab = {cs.vertcat: vertcat_, cs.MX: empty, cs.vec: lambda it, x: x if isinstance(x, Rec) and x.name == 'nonzeros' else rec('vec', x)}
        tab[cs.vec].always = True

        def run(writes, order=None):
            def run(it):
                it.entries, it.given = Lst([entry('x', pay('a')), entry('y', pay('a'))]), order
                it.cats = []
                o = it.call(S3.MXVeccatStruct, [Lst([])], {} if order is None else {'order': order})
                it.cats.append(it.getattr(o, 'cat'))
                for tag, p in writes:
                    it.setitem(o, p, pay(tag))
                    it.cats.append(it.getattr(o, 'cat'))
                return (it.getattr(o, 'size'), it.call(it.getattr(o, 'numel'), [], {}), it.call(it.getattr(o, 'is_column'), [], {}), it.call(it.getattr(o, 'is_dense'), [], {}))
            return run

        def post(writes):
            def post(it, kind, v, ctx):
                fits = lambda tag, qs: and_(*[var('fits:%s%d' % (tag, q), 'B') for q in qs])
                key = lambda p: p if isinstance(p, tuple) else (p,)
                steps = [('a', (0, 1, 2))] + [(t, PARTS.get(key(p))) for t, p in writes]
                ok = and_(*[fits(t, qs) if qs else FALSE for t, qs in steps])
                if kind == 'raise':
                    yield 'raises-only-when-unsuitable', not_(ok)
                else:
                    yield 'accepts-only-suitable', ok
                    yield from veq('size', v, (var('size'), var('size'), True, True), ctx)
                if kind != 'raise' and any(qs is None for t, qs in steps):
                    return
                now = {}
                for cat, (t, qs) in zip(it.cats, steps):
                    for q in qs:
                        now[q] = t
                    parts = list(cat.args[0])
                    yield 'as many parts', lift(len(parts) == 3)
                    for q, x in enumerate(parts[:3]):
                        if not (isinstance(x, Rec) and x.name in ('vec', 'nonzeros')):
                            raise OutOfReach('part')
                        yield from veq('part %d' % q, x.args[0], expr(now[q], q), ctx)
                        if x.name == 'vec':
                            yield 'only dense matrices are stacked as they are', var('dense:%s%d' % (now[q], q), 'B')
            return post

        def models(rng):
            for _ in range(8):
                yield mkmodel({**{'%s:%s%d' % (w, t, q): rng.random() < .85 for w in ('fits', 'dense', 'shaped') for t in 'abc' for q in range(3)}, 'size': 3, 'n': 1, 'm': 1, 'Q': 1, 'P': 1, 'R': 1, 'd': 1}, funs={'nnz': lambda q: Fraction(1)})
        for writes in [[]] + [[('b', p)] for p in ('x', 'y', ('y', 0), ('y', 1), ('x',))] + [[('b', p), ('c', q)] for p, q in (('x', 'x'), ('y', ('y', 1)), (('y', 1), 'y'))] + [[('b', ('x', 5))], [('b', ('y', 0, 1))], [('b', ('x', 'deeper'))]]:
            yield case('writes %r' % (writes,), run(writes), post(writes), FACTS, models, dict(C), [tab])
        yield case('given order', run([], ORDER), post([]), FACTS, models, dict(C), [tab])

        def incomplete(es):
            def run(it):
                it.entries, it.cats, it.given = Lst(es), [], None
                return it.call(S3.MXVeccatStruct, [Lst([])], {})
            return run
        yield case('an entry without expression', incomplete([entry('x', pay('a')), entry('y', None)]), raises(), FACTS, models, dict(C), [tab])
        yield case('missing expressions', lambda it: it.getattr(incomplete([entry('x', pay('a'))])(it), 'cat'), raises(), FACTS, models, dict(C), [tab])
        yield case('no expressions', lambda it: it.getattr(incomplete([])(it), 'cat'), raises(), FACTS, models, dict(C), [tab])


class VeccatN(Unit):
    """The constructor makes room for every element and assigns every entry its expression; an assignment changes
    the selected elements and no other, shown for one more of them in the middle of the assignment; the vector is
    stacked from the present contents after every assignment."""
    name = 'MXVeccatStruct'
    targets = Veccat.targets
    assumptions = (TRUST, 'contracts of EntryList, CasadiStructure; traverseByPowerIndex applies the dispatcher to the selected elements (C20), every element belongs to one entry (C18)')

    def cases(self):
        N, E, q0 = var('Q'), var('n'), var('q0')
        ident = lambda q: (rec('I', q, cls=str, injective=True),)
        dense = [True]

        def expr(tag, q):
            return rec('expr', tag, q, cls=cs.MX, sparsity=lambda it, e: Model_(lambda it: rec('pattern', *e.args, __eq__=same, __ne__=lambda it, a, b: not_(same(it, a, b)), dim=lambda it, p: Model_(lambda it: 'dim'))),
                       shape=lambda it, e: rec('pattern', *e.args, __eq__=shaped, __ne__=lambda it, a, b: not_(shaped(it, a, b))),
                       is_dense=lambda it, e: Model_(lambda it: dense[0]), nz=lambda it, e: rec('nz', e, __getitem__=lambda it, z, i: rec('nonzeros', z.args[0]) if is_all(i) else oor()))

        def same(it, a, b):
            p, o = [[x for x in (a, b) if x.name == n] for n in ('pattern', 'own')]
            if len(p) != 1 or len(o) != 1:
                raise OutOfReach('patterns')
            it.oblige('pattern of the same element', eq(p[0].args[1], o[0].args[0]))
            return app('fits', p[0].args[1], sort='B')

        def shaped(it, a, b):
            r = same(it, a, b)
            return or_(r, app('shaped', r.args[1], sort='B'))
        own = lambda q, how: rec('own', q, __eq__=how, __ne__=lambda it, a, b: not_(how(it, a, b)), dim=lambda it, p: Model_(lambda it: 'dim'))

        def index(it, m, key):
            key = tuple(key)
            if len(key) != 1 or not isinstance(key[0], Rec) or key[0].name != 'I':
                raise OutOfReach('index of an element')
            return rec('index', key[0].args[0], sparsity=lambda it, m: Model_(lambda it: own(m.args[0], same)), shape=lambda it, m: own(m.args[0], shaped))

        def st(traverse=None):
            return structure(traverseCanonicalIndex=lambda it, s: Model_(lambda it, limit=1000: BuildMap.limited(it, limit, lambda: seq(N, lambda q: Lst(ident(q))))),
                             traverseByPowerIndex=lambda it, s: Model_(traverse), map=lambda it, s: rec('map', __getitem__=index))
        entry = lambda e: rec('entry', e, cls=S3.CasadiStructEntry, name=lambda it, x: rec('name', *x.args, cls=str), expr=lambda it, x: rec('exprs', *x.args))
        tab = {cs.vertcat: vertcat_, cs.MX: empty, cs.vec: lambda it, x: x if isinstance(x, Rec) and x.name == 'nonzeros' else rec('vec', x)}
        tab[cs.vec].always = True

        def contents(o):
            """the list the expressions are kept in"""
            found = [v for v in o.attrs.values() if isinstance(v, Lst) and v.rec is None and len(v) == 1 and type(v[0]) is Seg and v[0].n is N and v[0].elems == [None]]
            if len(found) != 1:
                raise OutOfReach('expressions kept in another way')
            return found[0]

        def build(it, traverse=None, order=None):
            it.entries, it.given, it.events = seq(E, entry), order, Lst([])
            it.contracts = {**it.contracts, **declared(lambda: st(traverse)), S3.MXVeccatStruct.__setitem__: lambda it, o, k, v: c19.log(it, (k, v))}
            o = it.call(S3.MXVeccatStruct, [Lst([])], {} if order is None else {'order': order})
            del it.contracts[S3.MXVeccatStruct.__setitem__]
            return o
        assigned = lambda: seq(E, lambda e: (rec('name', e), rec('exprs', e)))

        def made(it, order):
            o = build(it, order=order)
            contents(o)
            return (it.events, it.getattr(o, 'size'), it.call(it.getattr(o, 'numel'), [], {}), it.call(it.getattr(o, 'is_column'), [], {}), it.call(it.getattr(o, 'is_dense'), [], {}))
        for order in (None, ORDER):
            yield case('construction' + (' in a given order' if order is not None else ''), lambda it, order=order: made(it, order), returns((assigned(), var('size'), var('size'), True, True)), FACTS, models, {}, [tab])

        def stacked(tag):
            return rec('vertcat', seq(N, lambda q: rec('vec' if dense[0] else 'nonzeros', rec('expr', tag, q))))

        def write(it, key, d, extra):
            dense[0] = d
            pay, at = rec('payload'), []

            def traverse(it, p, dispatcher=None, payload=None):
                require(it, 'power index', p, key if isinstance(key, tuple) else (key,))
                it.oblige('value', lift(payload is pay))
                at[0][:] = seq(N, lambda q: expr('during', q))
                it.call(dispatcher, [expr('new', q0), ident(q0) + ((rec('deeper', cls=str),) if extra == 'below' else ())], {'extraIndex': rec('part')} if extra == 'within' else {})
                require(it, 'one element is replaced', at[0], Lst([Seg(q0, (q := fresh('q')), [expr('during', q)]), expr('new', q0), Seg(sub(sub(N, q0), 1), (q := fresh('q')), [expr('during', add(q0, 1, q))])]))
                at[0][:] = seq(N, lambda q: expr('after', q))
            o = build(it, traverse)
            at.append(contents(o))
            at[0][:] = seq(N, lambda q: expr('before', q))
            one = it.getattr(o, 'cat')
            it.setitem(o, key, pay)
            if contents_moved(o, at[0]):
                raise OutOfReach('expressions kept in another way')
            return one, it.getattr(o, 'cat')

        def contents_moved(o, l):
            return not any(v is l for v in o.attrs.values())

        def post(extra):
            def post(it, kind, v, ctx):
                ok = FALSE if extra else app('fits', q0, sort='B')
                if kind == 'raise':
                    yield 'raises-only-when-unsuitable', not_(ok)
                    return
                yield 'accepts-only-suitable', ok
                yield from veq('vector before', v[0], stacked('before'), ctx)
                yield from veq('vector after', v[1], stacked('after'), ctx)
            return post
        here = FACTS + [le(0, q0), lt(q0, N)]
        mods = lambda rng: [mkmodel({**m.vars, 'Q': 3, 'q0': rng.randint(0, 2)}, funs={**m.funs, 'fits': lambda q, b=rng.random() < .5: b, 'shaped': lambda q: True}) for m in models(rng)]
        for label, key in (('a name', rec('name', cls=str)), ('a power index', (rec('name', cls=str), rec('component')))):
            for d in (True, False):
                yield case('assignment to %s, %s expressions' % (label, 'dense' if d else 'sparse'), lambda it, key=key, d=d: write(it, key, d, False), post(False), here, mods, {}, [tab])
            for extra in ('within', 'below'):
                yield case('assignment to %s %s an element' % (label, extra), lambda it, key=key, extra=extra: write(it, key, True, extra), post(True), here, mods, {}, [tab])

        def missing(it):
            dense[0] = True
            o = build(it)
            return it.getattr(o, 'cat')
        yield case('an element without an expression', missing, raises(), FACTS + [lt(0, N)], mods, {}, [tab])
        def setup(it):
            without = lambda e: rec('entry', e, cls=S3.CasadiStructEntry, name=lambda it, x: rec('name', *x.args, cls=str), expr=lambda it, x: None)
            it.entries, it.given = Lst(list(seq(E, entry)) + [without(I(0))] + list(seq(var('m'), entry))), None
            return True
        yield case('an entry without an expression', lambda it: it.call(S3.MXVeccatStruct, [Lst([])], {}) if setup(it) else None, raises(), FACTS, models, {**declared(lambda: st()), S3.MXVeccatStruct.__setitem__: lambda it, o, k, v: None}, [tab])


class Stack(Unit):
    name = 'MXVeccatStruct.master'
    targets = (S3.MXVeccatStruct.master,)
    assumptions = (TRUST,)

    def cases(self):
        n = var('Q')
        e = lambda q: rec('expr', q, cls=cs.MX, is_dense=lambda it, e: Model_(lambda it: self.dense), nz=lambda it, e: rec('nz', e, __getitem__=lambda it, z, i: rec('nonzeros', z.args[0]) if is_all(i) else oor()))
        tab = {cs.vertcat: vertcat_, cs.MX: empty, cs.vec: lambda it, x: x if isinstance(x, Rec) and x.name == 'nonzeros' else rec('vec', x)}
        tab[cs.vec].always = True
        for dense in (True, False):
            def run(it, dense=dense, gap=False):
                self.dense = dense
                s = list(seq(n, e))
                o = Obj(S3.MXVeccatStruct, {'storage': Lst(s + [None] + s if gap else s), 'dirty': True, 'mapping': Dct({})})
                return it.getattr(o, 'master')

            def post(it, kind, v, ctx, dense=dense):
                if kind == 'raise':
                    if v.etype is AttributeError:
                        raise OutOfReach('another representation')
                    yield 'does not raise', FALSE
                    return
                yield from veq('stack', v, rec('vertcat', Lst(list(seq(n, lambda q: rec('vec' if dense else 'nonzeros', rec('expr', q)))))), ctx)
            yield case('dense expressions' if dense else 'sparse expressions', run, post, FACTS, models, None, [tab])
            yield case('missing expressions' + (', dense' if dense else ''), lambda it, run=run: run(it, gap=True), raises(), FACTS, models, None, [tab])

    def __init__(self):
        self.dense = True


UNITS = [Plain, SymSX, SymMX, BuildMap, Veccat, VeccatN, Stack, c19.Declared, c19.Container]
