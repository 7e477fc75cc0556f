"""C20: power indices."""
import collections.abc
import types
from .structs import *

SE, ST = S3.StructEntry, S3.Structure
TRAV_E, TRAV_S = SE.traverseByPowerIndex, ST.traverseByPowerIndex
ASSUME = (PARTIAL, "slice.indices and range are python's; the selected repetitions are L positions start + step*k")


# ------------------------------------------------------------------ small helpers of the module
class Canonical(Unit):
    name = 'canonical'
    targets = (S3.canonical,)

    def cases(self):
        i, s = var('i'), var('s')
        yield case('any integer', lambda it: it.call(S3.canonical, [i, s], {}), returns(ite(lt(i, 0), add(i, s), i)),
                   models=lambda rng: [mkmodel({'i': rng.randint(-4, 4), 's': rng.randint(1, 5)}) for _ in range(4)],
                   native=lambda m: S3.canonical(int(m.vars['i']), int(m.vars['s'])))


class Unpack(Unit):
    name = 'payloadUnpack'
    targets = (S3.payloadUnpack, S3.isIterable, S3.is_string)

    def cases(self):
        i, n = var('i'), var('n')
        facts = [le(0, i), le(0, n)]

        def models(rng):
            return [mkmodel({'i': rng.randint(0, 3), 'n': rng.randint(0, 4)}, funs={'p': lambda k: Fraction(10 + int(k))}) for _ in range(5)]
        for kind, nat_ in ((Lst, list), (tuple, tuple)):
            yield case('element of a %s' % nat_.__name__, lambda it, kind=kind: it.call(S3.payloadUnpack, [seq(n, lambda k: app('p', k, sort='I'), kind), i], {}),
                       returns(app('p', i, sort='I'), lt(i, n)), facts, models, native=lambda m, k=nat_: S3.payloadUnpack(k(range(10, 10 + int(m.vars['n']))), int(m.vars['i'])))
        e = rec('e', cls=object)
        yield case('repeated', lambda it: it.call(S3.payloadUnpack, [it.call(S3.repeated, [e], {}), i], {}), returns(e), facts, models)
        for kind, nat_ in ((Lst, list), (tuple, tuple)):
            l = seq(n, lambda k: app('p', k, sort='I'), kind)
            yield case('repeated %s' % nat_.__name__, lambda it, l=l: it.call(S3.payloadUnpack, [it.call(S3.repeated, [l], {}), i], {}), returns(l), facts, models,
                       native=lambda m, k=nat_: S3.payloadUnpack(S3.repeated(k(range(10, 10 + int(m.vars['n'])))), int(m.vars['i'])))
        for cls in (float, dict, object):
            p = rec('payload', cls=cls)
            yield case('broadcast of a %s' % cls.__name__, lambda it, p=p: it.call(S3.payloadUnpack, [p, i], {}), returns(p), facts, models)
        yield case('string index', lambda it: it.call(S3.payloadUnpack, [e, 'a'], {}), raises())


def unpack(it, payload, i):
    return rec('unpack', payload, i)


def canonical_(it, i, s):
    return ite(lt(lift(i), 0), add(i, s), lift(i))


# ------------------------------------------------------------------ what the contracts say about one step
def dispatcher():
    def call(it, d, payload, canonicalIndex, extraIndex=None, entry=None):
        return rec('dispatch', d, payload, canonicalIndex, extraIndex, entry)
    spec = {'__call__': call}
    spec['callableInner'] = lambda it, d: Model_(lambda it: Rec('inner', (d,), None, spec))
    spec['callableOuter'] = lambda it, d: Model_(lambda it, payload, canonicalIndex, extraIndex=None, entry=None, inner=None: rec('outer', d, payload, canonicalIndex, extraIndex, entry, inner))
    return Rec('dispatcher', (), None, spec)


D = dispatcher()
INNER = D.spec['callableInner'](None, D).fn(None)
CANON = seq(var('c'), lambda i: rec('c', i), tuple)
REST = seq(var('m'), lambda i: rec('p', i))
DREST = seq(var('d'), lambda i: app('dim', i, sort='I'))
OWN = seq(var('own'), lambda i: app('own', i, sort='I'))
S = var('s')
FACTS = [le(0, var('c')), le(0, var('m')), le(0, var('d')), le(0, var('own')), le(0, S), le(0, var('L')), le(0, var('M')), le(0, var('N'))]


def trav_entry(it, self, powerIndex, dims=None, canonicalIndex=(), dispatcher=None, payload=None):
    return rec('select-entry', self, tuple(powerIndex), it.getattr(self, 'dims') if dims is None else dims, canonicalIndex, dispatcher, payload)


def trav_struct(it, self, powerIndex, canonicalIndex=(), dispatcher=None, payload=None):
    return rec('select-struct', self, tuple(powerIndex), canonicalIndex, dispatcher, payload)


STRUCT = rec('struct', cls=ST, traverseByPowerIndex=lambda it, s: Model_(lambda it, *a, **k: trav_struct(it, s, *a, **k)))
PAYLOAD = rec('payload', cls=object)


def callable_value():
    return rec('f', cls=types.FunctionType, __call__=lambda it, f, x: rec('apply', f, x))


def python_range(it, *a):
    """range over the indices of a slice"""
    if len(a) == 3 and all(isinstance(x, T) for x in a):
        return SIter(var('L'), lambda k: add(a[0], mul(a[2], k)))
    return None


def with_range():
    import builtins
    from pyvc.models_np import TABLE as NP

    def f(it, *a):
        r = python_range(it, *a)
        return r if r is not None else NP[builtins.range](it, *a)
    f.always = True
    return {builtins.range: f}


def any_model(rng):
    return [mkmodel({'c': 1, 'm': 1, 'd': 1, 'own': 2, 's': 3, 'L': 2, 'M': 2, 'N': 2, 'q': rng.randint(-3, 3), 'a': 0, 'b': 3, 'step': 1},
                    funs={'q': lambda k: Fraction(0), 'has': lambda *a: True, 'in': lambda *a: True, 'dim': lambda k: Fraction(2), 'own': lambda k: Fraction(1)}) for _ in range(2)]


class Entry(Unit):
    name = 'StructEntry.traverseByPowerIndex'
    targets = (TRAV_E, SE.isPrimitive, S3.is_integer)
    assumptions = ASSUME + ('contracts of canonical, payloadUnpack; recursive calls and dispatchers satisfy their contracts',)

    def cases(self):
        C = {TRAV_E: trav_entry, S3.payloadUnpack: unpack, S3.canonical: canonical_}

        def entry(struct=None, dims=None):
            return Obj(S3.CasadiStructEntry, {'name': 'x', 'struct': struct, 'dims': OWN if dims is None else dims, 'type': None})

        def mk(label, power, dims, want, cond=TRUE, struct=None, own=False, payload=PAYLOAD, post=None):
            e = entry(struct, dims if own else None)

            def run(it):
                kw = dict(canonicalIndex=CANON, dispatcher=D, payload=payload)
                if not own:
                    kw['dims'] = dims
                return direct(it, TRAV_E, [e, power], kw)
            return case(label, run, post or returns(lambda it: want(it, e), cond), FACTS, any_model, dict(C), [with_range()])

        def sub_(e, power, i, payload=PAYLOAD, d=D):
            """the rest of the index on repetition i"""
            return rec('select-entry', e, tuple(power), DREST, CANON + (i,), d, payload)

        for struct in (None, STRUCT):
            kind = 'structure' if struct else 'matrix'
            for own in (False, True):
                for power in (Lst([]), ()):
                    yield mk('%s: end of index%s %s' % (kind, ', own dimensions' if own else '', type(power).__name__), power, Lst([]),
                             lambda it, e: rec('dispatch', D, PAYLOAD, CANON, None, e), struct=struct, own=own)
            yield mk('%s: missing indices' % kind, Lst([]), Lst([S] + DREST),
                     lambda it, e: rec('select-entry', e, (slice(None),) + tuple(seq(var('d'), lambda i: slice(None))), Lst([S] + DREST), CANON, D, PAYLOAD), struct=struct)
            P = rec('p0', cls=object)
            for power in (Lst([P] + REST), (P,) + tuple(REST)):
                if struct is None:
                    want = lambda it, e: rec('dispatch', D, PAYLOAD, CANON, (P,) + tuple(REST), e)
                else:
                    want = lambda it, e: rec('select-struct', STRUCT, (P,) + tuple(REST), CANON, D, PAYLOAD)
                yield mk('%s: dimensions exhausted, %s' % (kind, type(power).__name__), power, Lst([]), want, struct=struct)
        for kind in (Lst, tuple):
            def power(p):
                return kind([p] + list(REST))
            nm = ', index a %s' % ('list' if kind is Lst else 'tuple')
            yield mk('integer' + nm, power(var('q')), Lst([S] + DREST), lambda it, e: sub_(e, REST, ite(lt(var('q'), 0), add(var('q'), S), var('q'))))
            yield mk('integer, own dimensions' + nm, power(var('q')), Lst([S] + DREST), lambda it, e: sub_(e, REST, ite(lt(var('q'), 0), add(var('q'), S), var('q'))), own=True)
            sl = rec('slice', cls=slice, indices=lambda it, s: Model_(lambda it, n: (var('a'), var('b'), var('step')) if n is S else rec('bad')))
            at = lambda k: add(var('a'), mul(var('step'), k))
            yield mk('slice' + nm, power(sl), Lst([S] + DREST), lambda it, e: seq(var('L'), lambda k: sub_(e, REST, canonical_(it, at(k), S), rec('unpack', PAYLOAD, k))))
            ql = seq(var('M'), lambda k: app('q', k, sort='I'))
            yield mk('list' + nm, power(ql), Lst([S] + DREST), lambda it, e: seq(var('M'), lambda k: sub_(e, REST, canonical_(it, app('q', k, sort='I'), S), rec('unpack', PAYLOAD, k))))
            yield mk('empty list' + nm, power(Lst([])), Lst([S] + DREST), lambda it, e: Lst([]))
            yield mk('nested dictionaries' + nm, power(S3.nesteddict), Lst([S] + DREST), lambda it, e: seq(S, lambda k: sub_(e, (S3.nesteddict,), k, rec('unpack', PAYLOAD, k))))
            f = callable_value()
            yield mk('callable' + nm, power(f), Lst([S] + DREST),
                     lambda it, e: rec('outer', D, PAYLOAD, CANON, None, None, rec('apply', f, rec('select-entry', e, tuple(REST), Lst([S] + DREST), CANON, INNER, PAYLOAD))))
            for label, p in (('dictionary', Dct({})), ('set', {'a'}), ('name', 'a'), ('nothing', None), ('ellipsis', Ellipsis), ('number', 1.5)):
                yield mk('%s in list context%s' % (label, nm), power(p), Lst([S] + DREST), None, post=raises())


class Struct(Unit):
    name = 'Structure.traverseByPowerIndex'
    targets = (TRAV_S,)
    assumptions = ASSUME + ('contracts of payloadUnpack, Structure.keys, SafeDict; the selection inside an entry satisfies its contract',)

    def cases(self):
        C = {TRAV_S: trav_struct, S3.payloadUnpack: unpack, ST.keys: lambda it, s: seq(var('N'), lambda i: key(i))}

        def key(i):
            return rec('key', i, cls=str)

        def espec():
            return {'traverseByPowerIndex': lambda it, e: Model_(lambda it, powerIndex, dims=None, canonicalIndex=(), dispatcher=None, payload=None:
                    rec('select-in', e.args[0], tuple(powerIndex), dims, canonicalIndex, dispatcher, payload))}

        def entry(k):
            return Rec('entry', (k,), S3.CasadiStructEntry, espec())

        def lookup(it, d, k):
            """SafeDict: the entry of that name, or an error"""
            if isinstance(k, Rec) and k.name == 'key':
                return entry(k)
            if isinstance(k, str):
                known = var('has:' + k, 'B')
            elif isinstance(k, Rec):
                known = app('has', *k.args, sort='B')
            else:
                raise PyRaise(Exception)
            if not it.branch(known):
                raise PyRaise(Exception)
            return entry(k)
        d = rec('dict', cls=S3.SafeDict, __getitem__=lookup, items=lambda it, d: Model_(lambda it: seq(var('N'), lambda i: (key(i), entry(key(i))))))
        s = Obj(S3.CasadiStructure, {'dict': d})

        def sel(k, power, payload=PAYLOAD, disp=D):
            return rec('select-in', k, tuple(power), None, CANON + (k,), disp, payload)

        def model(rng):
            return [mkmodel({'c': 1, 'm': 1, 'd': 1, 'own': 2, 's': 3, 'L': 2, 'M': 2, 'N': 2, 'has:a': h}, funs={'has': lambda *a: True, 'in': lambda *a: True}) for h in (True, False)]

        def mk(label, power, want, cond=TRUE, payload=PAYLOAD, post=None):
            return case(label, lambda it: direct(it, TRAV_S, [s, power], dict(canonicalIndex=CANON, dispatcher=D, payload=payload)), post or returns(want, cond), FACTS, model, dict(C), [with_range()])

        pd = rec('payload-dict', cls=dict, items=lambda it, p: Model_(lambda it: seq(var('M'), lambda j: (rec('pk', j, cls=str), rec('pv', j)))))
        pset = rec('set', cls=set, __iter__=lambda it, p: seq(var('M'), lambda j: rec('sk', j, cls=str)), __contains__=lambda it, p, k: app('in', *k.args, sort='B'))
        for kind in (Lst, tuple):
            def power(p):
                return kind([p] + list(REST))
            nm = ', index a %s' % ('list' if kind is Lst else 'tuple')
            yield mk('end of index' + nm, kind([]), rec('dispatch', D, PAYLOAD, CANON, None, None))
            yield mk('name' + nm, power('a'), sel('a', REST), var('has:a', 'B'))
            yield mk('slice' + nm, power(slice(None)), None, post=raises())
            for label, p in (('number', 1.5), ('nothing', None), ('integer', var('s'))):
                yield mk(label + nm, power(p), None, post=raises())
            yield mk('ellipsis' + nm, power(Ellipsis), seq(var('N'), lambda i: sel(key(i), REST, rec('unpack', PAYLOAD, i))))
            for label, p, rest in (('dictionary', Dct({}), REST), ('nested dictionaries', S3.nesteddict, (S3.nesteddict,))):
                yield mk(label + nm, power(p), SDct(seq(var('N'), lambda i: (key(i), sel(key(i), rest)))))
                ok = forall(k_, ZERO, var('M'), app('has', k_, sort='B'))
                yield mk(label + ', dictionary payload' + nm, power(p), SDct(seq(var('M'), lambda j: (rec('pk', j), sel(rec('pk', j), rest, rec('pv', j))))), ok, payload=pd)
            ok = forall(k_, ZERO, var('M'), app('has', k_, sort='B'))
            yield mk('set' + nm, power(pset), SDct(seq(var('M'), lambda j: (rec('sk', j), sel(rec('sk', j), REST)))), ok)
            k = fresh('k')
            okin = forall(k_, ZERO, var('M'), implies(app('in', k_, sort='B'), app('has', k_, sort='B')))
            yield mk('set, dictionary payload' + nm, power(pset), SDct(Lst([FSeg(var('M'), k, app('in', k, sort='B'), (rec('pk', k), sel(rec('pk', k), REST, rec('pv', k))))])), okin, payload=pd)
            yield mk('list' + nm, power(seq(var('M'), lambda j: rec('lk', j, cls=str))), seq(var('M'), lambda j: sel(rec('lk', j), REST, rec('unpack', PAYLOAD, j))), ok)
            f = callable_value()
            yield mk('callable' + nm, power(f), rec('outer', D, PAYLOAD, CANON, None, None, rec('apply', f, rec('select-struct', s, tuple(REST), CANON, INNER, PAYLOAD))))


k_ = fresh('k')
UNITS = [Canonical, Unpack, Entry, Struct]

from . import concrete
concrete.validate(UNITS, session=('StructEntry.traverseByPowerIndex', 'Structure.traverseByPowerIndex'))
