"""C25: pickling, saving and loading."""
import builtins
import pickle
from .structs import *
from . import c19
from .c18 import _word
import casadi as cs

CS_, ST, CD, DM_ = S3.CasadiStructure, S3.Structure, S3.CasadiStructured, S3.DMStruct
PICKLE = 'pickle: loading makes an object of the same class and gives __setstate__ (or the attributes) an equal copy of what __getstate__ returned'
SAME = 'the layout is determined by the entries and the order given to Structure.__init__ (C18)'
models, FACTS = c19.models, c19.FACTS


def log(it, *x):
    it.events.append(x)


def structure_init(it, self, *a, **k):
    """the declaration, and a size"""
    it.call_fn(CS_.__init__, [self] + list(a), k)
    self.attrs['size'] = var('size')


C = {CS_.__init__: structure_init, ST.__init__: lambda it, s, *a, **k: log(it, *declared(*a, **k)), ST.traverseCanonicalIndex: lambda it, s, limit=1000: Lst([]),
     ('new', S3.EntryList): lambda it, s, order=None: rec('entrylist', entries=lambda it, l: rec('entries', order if order is not None else 'own'), order=lambda it, l: rec('order', order if order is not None else 'own'))}


def declared(entries, order=None):
    return entries, order


def reload(it, o):
    """contract of pickle"""
    state = it.call(it.getattr(o, '__getstate__'), [], {})
    t = Obj(o.cls, {}, whole=True)
    it.call(it.getattr(t, '__setstate__'), [state], {})
    return t


def again(times):
    def f(it, o):
        for _ in range(times):
            o = reload(it, o)
        return o
    return f


class Declarations(Unit):
    name = 'state of structures'
    targets = (CS_.__getstate__, CS_.__setstate__, CS_.__init__, CD.__getstate__, CD.__setstate__, CD.__init__, S3.Structured.__init__)
    assumptions = (PICKLE, SAME, 'contract of EntryList')

    def cases(self):
        E, O = rec('entries', 'given'), rec('order', 'given')

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'does not raise', FALSE
                return
            old, new, first = v
            yield 'built again', lift(len(it.events) > first)
            yield from veq('declaration', it.events[-1], it.events[0], ctx)
            yield 'class', lift(new.cls is old.cls)
            for a in ('size', 'order') if old.cls is CD else ('size',):
                yield from veq(a, it.getattr(new, a), it.getattr(old, a), ctx)
            if old.cls is CD:
                s = it.getattr(new, 'struct')
                yield 'structure', lift(isinstance(s, Obj) and s.cls is CS_)
                for a in ('i', 'f'):
                    yield a + ' of the new structure', lift(it.getattr(new, a) is it.getattr(s, a))
        for times in (1, 2):
            for label, cls, args, kw in (('structure', CS_, [E], {}), ('ordered structure', CS_, [E], {'order': O}), ('structured object', CD, [Lst([])], {}), ('ordered structured object', CD, [Lst([])], {'order': O})):
                def run(it, cls=cls, args=args, kw=kw, times=times):
                    it.events = []
                    o = it.call(cls, args, kw)
                    n = len(it.events)
                    return (o, again(times)(it, o), n)
                yield case('%s%s' % (label, ', twice' if times > 1 else ''), run, post, FACTS, models, dict(C))

        def shared(it):
            it.events = []
            st = it.call(CS_, [E], {'order': O})
            n = len(it.events)
            return (o := it.call(CD, [st], {}), again(1)(it, o), n)
        yield case('structured object made from a structure', shared, post, FACTS, models, dict(C))


class Numbers(Unit):
    name = 'state of numeric vectors'
    targets = (DM_.__getstate__, DM_.__setstate__, DM_.__init__, S3.MatrixStruct.__init__)
    assumptions = (PICKLE, SAME)

    def cases(self):
        E, O = rec('entries', 'given'), rec('order', 'given')
        data = c19.vector('data', cs.DM, var('size'), ONE)

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'does not raise', FALSE
                return
            old, new, n = v
            yield 'built again', lift(len(it.events) > n)
            yield from veq('declaration', it.events[-1], it.events[0], ctx)
            yield 'class', lift(new.cls is old.cls)
            yield from veq('numbers', it.getattr(new, 'cat'), it.getattr(old, 'cat'), ctx)
            yield from veq('size', it.getattr(new, 'size'), it.getattr(old, 'size'), ctx)
        for times in (1, 2):
            for label, kw in (('plain', {}), ('ordered', {'order': O})):
                def run(it, kw=kw, times=times):
                    it.events = []
                    o = it.call(DM_, [it.call(CS_, [E], kw)], {'data': data})
                    n = len(it.events)
                    return (o, again(times)(it, o), n)
                yield case('%s%s' % (label, ', twice' if times > 1 else ''), run, post, FACTS, models, dict(C), [c19.MATRICES])

            def both(it, times=times):
                """the structure of a vector that was stored before"""
                it.events = []
                o = it.call(DM_, [it.call(CS_, [E], {'order': O})], {'data': data})
                reload(it, o)
                s = it.getattr(o, 'struct')
                n = len(it.events)
                t = again(times)(it, s)
                return (t, n)

            def post2(it, kind, v, ctx):
                if kind == 'raise':
                    yield 'does not raise', FALSE
                    return
                yield 'built again', lift(len(it.events) > v[1])
                yield from veq('declaration', it.events[-1], it.events[0], ctx)
            yield case('structure of a stored vector%s' % (', twice' if times > 1 else ''), both, post2, FACTS, models, dict(C), [c19.MATRICES])


class Entries(Unit):
    name = 'CasadiStructEntry.__getstate__'
    targets = (S3.CasadiStructEntry.__getstate__,)
    assumptions = (PICKLE,)
    NEEDED = ('name', 'struct', 'sparsity', 'originalsparsity', 'type', 'repeat', 'shapestruct', 'dims')

    def cases(self):
        for symm in (False, True):
            for sub in (False, True):
                at = dict(name='x', struct=rec('sub') if sub else None, sparsity=rec('pattern'), type='symm' if symm else None, repeat=symlist('rep', 'n'), shapestruct=(rec('S'), rec('T')) if not sub else None, dims=symlist('rep', 'n'), sym=None, expr=None, data=rec('pattern'), dict=Dct({}))
                if symm:
                    at['originalsparsity'] = rec('original')

                def post(it, kind, v, ctx, at=at):
                    if kind == 'raise':
                        yield 'does not raise', FALSE
                        return
                    if not isinstance(v, dict):
                        raise OutOfReach('state')
                    for k in self.NEEDED:
                        yield 'has %s' % k, lift((k in v) == (k in at))
                        if k in v and k in at:
                            yield from veq(k, v[k], at[k], ctx)

                def ms(rng):
                    for m in models(rng):
                        m.funs['rep'] = lambda k: Fraction(2)
                        yield m
                yield case('%s%s' % ('symmetric' if symm else 'plain', ', sub-structure' if sub else ''), lambda it, at=at: direct(it, S3.CasadiStructEntry.__getstate__, [Obj(S3.CasadiStructEntry, dict(at), whole=True)]), post, FACTS, ms)


class Views(Unit):
    name = 'state of Prefixer'
    targets = (S3.Prefixer.__getstate__, S3.Prefixer.__setstate__, S3.Prefixer.__init__)
    assumptions = (PICKLE,)

    def cases(self):
        st = rec('vector', cls=S3.DMStruct, __getitem__=lambda it, s, p: rec('read', p), __DM__=lambda it, s: rec('cast'), master=lambda it, s: rec('master', cls=cs.DM))
        pre = seq(var('m'), lambda k: rec('pre', k), tuple)
        p = seq(var('n'), lambda k: rec('p', k), tuple)
        for cast in (True, False):
            def run(it, cast=cast):
                o = it.call(S3.Prefixer, [st, pre], {'castmaster': cast})
                t = reload(it, o)
                return (it.getitem(t, p), it.call(t, [], {}), it.call(it.getattr(t, 'cast'), [], {}))
            yield case('castmaster' if cast else 'plain', run, returns((rec('read', pre + p), rec('read', pre), rec('master') if cast else rec('read', pre))), FACTS, models)


class Files(Unit):
    name = 'save and struct_load'
    targets = (CS_.save, DM_.save, S3.struct_load)
    assumptions = ('open, pickle.dump and pickle.load work as documented',)

    def cases(self):
        name = rec('filename', cls=str)

        def opened(it, f, mode='r'):
            return rec('file', f, mode, __enter__=lambda it, f: f, __exit__=lambda it, f, *a: log(it, 'close', f.args), close=lambda it, f: Model_(lambda it: log(it, 'close', f.args)))

        def dump(it, o, f, protocol=None, **k):
            log(it, 'dump', o, f.args)

        def load(it, f, **k):
            log(it, 'load', f.args)
            return rec('loaded', f.args)
        tab = {builtins.open: opened, pickle.dump: dump, pickle.load: load}
        for f in tab.values():
            f.always = True
        for cls in (CS_, DM_):
            o = Obj(cls, {})

            def run(it, o=o, cls=cls):
                it.events = []
                direct(it, cls.save, [o, name])
                return tuple(it.events)
            yield case('%s.save' % cls.__name__, run, returns((('dump', o, (name, 'wb')), ('close', (name, 'wb')))), FACTS, models, {}, [tab])

        def run(it):
            it.events = []
            r = direct(it, S3.struct_load, [name])
            return (r, tuple(it.events))
        yield case('struct_load', run, returns((rec('loaded', (name, 'rb')), (('load', (name, 'rb')), ('close', (name, 'rb'))))), FACTS, models, {}, [tab])


UNITS = [Declarations, Numbers, Entries, Views, Files]
