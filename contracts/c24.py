"""C24: validation and normalisation of entry declarations."""
import itertools
import numpy as np
from .structs import *
from pyvc import models_sp as SPM
from pyvc import models_np as NPM
from pyvc.models_sp import dense, pattern
import casadi as cs

CE = S3.CasadiStructEntry
KWS = ('repeat', 'shape', 'sym', 'expr', 'struct', 'shapestruct', 'type')
FORBIDDEN = {frozenset(p) for p in (('shape', 'struct'), ('struct', 'shapestruct'), ('sym', 'shape'), ('sym', 'repeat'), ('sym', 'expr'), ('expr', 'shape'), ('expr', 'repeat'))}
TRUSTED_SP = 'casadi.Sparsity.dense(r, c), Sparsity.upper, intersection, size1, size2 and .sparsity() as documented (pyvc/models_sp.py)'


class V:
    """a value of a keyword: the value, whether it is valid, what it declares, the same thing for the oracle"""

    def __init__(self, label, value, ok=TRUE, inst=None, facts=(), **gives):
        self.label, self.value, self.ok, self.inst, self.facts, self.gives = label, value, ok, inst, list(facts), gives


def ints(m, *ns):
    return [int(m[n]) for n in ns]


def structure(name):
    s = rec('structure', name, cls=S3.CasadiStructure, size=lambda it, s: var('size:' + name), struct=lambda it, s: s)
    return s


def structured(name):
    s = structure(name)
    return rec('structured', name, cls=S3.ssymStruct, struct=lambda it, x: s, cat=lambda it, x: rec('cat', name, sparsity=lambda it, c: Model_(lambda it: dense(var('size:' + name), 1))), size=lambda it, x: var('size:' + name))


def matrix(cls, r, c, **spec):
    """an expression with an arbitrary pattern"""
    sp = Rec('sp', (lift(r), lift(c)), cs.Sparsity, dict(SPM.SP, size1=lambda it, s: Model_(lambda it: lift(r)), size2=lambda it, s: Model_(lambda it: lift(c))))
    return rec('expression', cls=cls, sparsity=lambda it, e: Model_(lambda it: sp), **spec), sp


def values():
    q, r, c, n = (var(x) for x in 'qrcn')
    pos = [le(0, r), le(0, c)]
    out = {}
    out['repeat'] = [
        V('integer', q, inst=lambda m: int(m['q']), repeat=Lst([q])),
        V('list', symlist('rep', 'n'), inst=lambda m: [2] * int(m['n']), facts=[le(0, n)], repeat=symlist('rep', 'n')),
        V('number', 1.5, FALSE, lambda m: {'bad': 'float'}),
        V('list with a number', Lst([q, 1.5]), FALSE, lambda m: {'bad': 'listfloat'}),
        V('tuple', (q, q), FALSE, lambda m: {'bad': 'tuple'}),
        V('string', 'x', FALSE, lambda m: {'bad': 'str'}),
        V('nothing', None, FALSE, lambda m: {'bad': 'none'})]
    sp, spr = pattern(7), None
    out['shape'] = [
        V('rows and columns', (r, c), inst=lambda m: {'tup': ints(m, 'r', 'c')}, facts=pos, shape=dense(r, c)),
        V('integer', r, inst=lambda m: int(m['r']), facts=pos, shape=dense(r, 1)),
        V('list of rows', Lst([r]), inst=lambda m: ints(m, 'r'), facts=pos, shape=dense(r, 1)),
        V('list of rows and columns', Lst([r, c]), inst=lambda m: ints(m, 'r', 'c'), facts=pos, shape=dense(r, c)),
        V('rows', (r,), inst=lambda m: {'tup': ints(m, 'r')}, facts=pos, shape=dense(r, 1)),
        V('pattern', sp, facts=SPM.pattern_facts(7), shape=sp),
        V('empty list', Lst([]), FALSE, lambda m: {'bad': 'empty'}),
        V('empty tuple', (), FALSE, lambda m: {'bad': 'emptytuple'}),
        V('three dimensions', (r, r, c), FALSE, lambda m: {'bad': 'three'}),
        V('list of three', Lst([r, c, c]), FALSE, lambda m: {'bad': 'three'}),
        V('number', 2.5, FALSE, lambda m: {'bad': 'float'}),
        V('string', 'ab', FALSE, lambda m: {'bad': 'str'}),
        V('nothing', None, FALSE, lambda m: {'bad': 'none'})]
    S, Tt = structure('S'), structured('S')
    sizes = [le(0, var('size:S'))]
    out['struct'] = [V('structure', S, inst=lambda m: {'st': 'S'}, struct=S), V('structured', Tt, inst=lambda m: {'sym': 'S'}, struct=S)]
    z = var('size:S')
    out['shapestruct'] = [
        V('structure', S, inst=lambda m: {'ss1': 'S'}, facts=sizes, shape=dense(z, 1), shapestruct=(S, 1)),
        V('structured', Tt, facts=sizes, shape=dense(z, 1), shapestruct=(S, 1)),
        V('one', (S,), inst=lambda m: {'ss': ['S']}, facts=sizes, shape=dense(z, 1), shapestruct=(S,)),
        V('two', (S, S), inst=lambda m: {'ss': ['S', 'S']}, facts=sizes, shape=dense(z, z), shapestruct=(S, S)),
        V('structure and number', (Tt, c), inst=lambda m: {'ss': ['S', int(m['c'])]}, facts=sizes + pos, shape=dense(z, c), shapestruct=(S, c)),
        V('number and structure', (r, S), inst=lambda m: {'ss': [int(m['r']), 'S']}, facts=sizes + pos, shape=dense(r, z), shapestruct=(r, S)),
        V('empty', (), FALSE, lambda m: {'bad': 'emptytuple'}),
        V('three', (r, S, c), FALSE, lambda m: {'bad': 'three'}),
        V('list', Lst([S]), FALSE, lambda m: {'bad': 'list'}),
        V('integer', r, FALSE, lambda m: {'bad': 'int'}),
        V('string', ('S',), FALSE, lambda m: {'bad': 'str'})]
    yes, no = [lambda it, e, b=b: Model_(lambda it: b) for b in (True, False)]
    sx, sxp = matrix(cs.SX, r, c, is_valid_input=yes)
    out['sym'] = [
        V('symbols', sx, inst=lambda m: {'sx': ints(m, 'r', 'c')}, facts=pos, shape=sxp, sym=sx),
        V('structured symbols', Tt, inst=lambda m: {'symst': 'S'}, facts=sizes, shape=dense(z, 1), struct=S, sym=rec('cat', 'S')),
        V('expression', matrix(cs.SX, r, c, is_valid_input=no)[0], FALSE, lambda m: {'bad': 'expr'}),
        V('MX', matrix(cs.MX, r, c, is_valid_input=yes)[0], FALSE, lambda m: {'bad': 'mx'}),
        V('number', 3, FALSE, lambda m: {'bad': 'num'})]
    out['expr'] = []
    e, ep = matrix(cs.MX, r, c)
    e0, _ = matrix(cs.MX, var('r9'), var('c9'))
    shp = lambda m: dict(shape=ints(m, 'r', 'c'), T='MX')
    out['expr'].append(V('matrix', e, inst=lambda m: dict(shp(m), nest=[]), facts=pos, shape=ep, repeat=Lst([])))

    def tail(k):
        """list of k+1 expressions, the first being given"""
        return lambda first: Lst([first, Seg(var(k), fresh('j'), [e0])])
    a, b, d = tail('k1'), tail('k2'), tail('k3')
    ks = [le(0, var(k)) for k in ('k1', 'k2', 'k3')]
    n1, n2, n3 = (add(var(k), 1) for k in ('k1', 'k2', 'k3'))
    out['expr'] += [
        V('list', a(e), inst=lambda m: dict(shp(m), nest=[int(m['k1']) + 1]), facts=pos + ks, shape=ep, repeat=Lst([n1])),
        V('nested lists', a(b(e)), inst=lambda m: dict(shp(m), nest=[int(m['k1']) + 1, int(m['k2']) + 1]), facts=pos + ks, shape=ep, repeat=Lst([n1, n2])),
        V('lists nested in three levels', a(b(d(e))), inst=lambda m: dict(shp(m), nest=[int(m[k]) + 1 for k in ('k1', 'k2', 'k3')]), facts=pos + ks, shape=ep, repeat=Lst([n1, n2, n3])),
        V('empty list', Lst([]), inst=lambda m: dict(shp(m), nest=[0]), shape=dense(0, 0), repeat=Lst([0])),
        V('list of empty lists', a(Lst([])), inst=lambda m: dict(shp(m), nest=[int(m['k1']) + 1, 0]), facts=ks, shape=dense(0, 0), repeat=Lst([0])),
        V('number', 3, FALSE, lambda m: {'bad': 'num'}),
        V('list of numbers', Lst([3, 4]), FALSE, lambda m: {'bad': 'listnum'}),
        V('string', 'x', FALSE, lambda m: {'bad': 'str'})]
    out['type'] = [V('symm', 'symm', inst=lambda m: 'symm', type='symm')] + [V('type %r' % s, s, FALSE, lambda m, s=s: s) for s in ('diag', '', 'sym')]
    return out


def expected(kw):
    """(condition of validity, what is declared)"""
    if any(frozenset(p) in FORBIDDEN for p in itertools.combinations(kw, 2)):
        return FALSE, None
    ok = and_(*[v.ok for v in kw.values()])
    if ok is FALSE:
        return FALSE, None
    d = dict(repeat=Lst([]), shape=dense(1, 1), struct=None, shapestruct=None, sym=None, expr=None, type=None)
    for k in ('repeat', 'struct', 'shapestruct', 'shape', 'sym', 'expr', 'type'):
        if k in kw:
            d.update(kw[k].gives)
    if 'expr' in kw:
        d['expr'] = kw['expr'].value
    if 'type' in kw:
        s = d['shape']
        r, c = (s.spec[n](None, s).fn(None) for n in ('size1', 'size2'))
        ok = eq(lift(r), lift(c))
        d['shape'] = Rec('both', (s, Rec('upper', (lift(r),), cs.Sparsity, {})), cs.Sparsity, {})
    return ok, d


def combos(vals):
    """no keyword, one with every value, two with every pair of values, three or more with one valid value each and with one invalid value"""
    yield {}
    for k in KWS:
        for v in vals[k]:
            yield {k: v}
    for a, b in itertools.combinations(KWS, 2):
        for v in vals[a]:
            for w in vals[b]:
                yield {a: v, b: w}
    for n in range(3, 8):
        for ks in itertools.combinations(KWS, n):
            yield {k: vals[k][0] for k in ks}
    for ks in itertools.combinations(KWS, 3):
        if any(frozenset(p) in FORBIDDEN for p in itertools.combinations(ks, 2)):
            continue
        for i in range(1, max(len(vals[k]) for k in ks)):
            for k in ks:
                if i < len(vals[k]):
                    yield {j: vals[j][i if j == k else 0] for j in ks}


def draw(rng):
    m = {x: rng.randint(1, 3) for x in ('q', 'r', 'c', 'r9', 'c9')}
    if rng.random() < .5:
        m['c'] = m['r']
    m.update({'n': rng.randint(0, 2), 'size:S': 3, 'k1': rng.randint(0, 2), 'k2': rng.randint(0, 2), 'k3': rng.randint(0, 1)})
    return m


def entry_case(kw, extra=(), args=('nm',), make=None, label=None):
    facts = [f for v in kw.values() for f in v.facts]
    ok, d = expected(kw)
    if len(args) != 1 or extra:
        ok = FALSE

    def run(it):
        k = {k: v.value for k, v in kw.items()}
        for x in extra:
            k[x] = 2
        return it.call(make or CE, list(args), k)

    def post(it, kind, e, ctx):
        if kind == 'raise':
            yield 'raises-only-when-invalid', not_(ok)
            yield 'exception', lift(isinstance(e.etype, type) and issubclass(e.etype, Exception))
            return
        yield 'accepts-only-valid', ok
        if ok is FALSE:
            return
        ctx = ctx + ok if ok is not TRUE else ctx
        yield 'name', lift(it.getattr(e, 'name') == 'nm')
        for a, b in (('repeat', 'repeat'), ('dims', 'repeat'), ('sparsity', 'shape'), ('struct', 'struct'), ('shapestruct', 'shapestruct'), ('sym', 'sym'), ('expr', 'expr'), ('type', 'type')):
            yield from veq(a, it.getattr(e, a), d[b], ctx)
        if d['type']:
            yield from veq('originalsparsity', it.getattr(e, 'originalsparsity'), d['shape'].args[0], ctx)

    def models(rng):
        for _ in range(3):
            m = draw(rng)
            inst = None
            if all(v.inst for v in kw.values()):
                inst = dict(kind='entry', n=len(args), kw={**{k: v.inst(m) for k, v in kw.items()}, **{x: 2 for x in extra}})
            yield mkmodel(m, funs={'rep': lambda k: Fraction(2), 'rows': lambda k: Fraction(3), 'cols': lambda k: Fraction(2), 'nnz': lambda k: Fraction(2)}, inst=inst)
    def native(m):
        from oracles import c24 as o
        if m.inst is None:
            raise NotImplementedError
        e = S3.CasadiStructEntry(*['nm', 'extra', 3][:m.inst['n']], **{k: o.real_value(k, v) for k, v in m.inst['kw'].items()})
        return [[int(r) for r in e.repeat], list(e.sparsity.shape), int(e.struct is None), int(e.expr is None), int(e.type is None)]

    def observe(v):
        s = v.attrs['sparsity']
        while s.name == 'both':
            s = s.args[0]
        return Lst([v.attrs['repeat'], Lst([s.spec[n](None, s).fn(None) for n in ('size1', 'size2')])] + [int(v.attrs[n] is None) for n in ('struct', 'expr', 'type')])
    return case(label or ', '.join('%s: %s' % (k, v.label) for k, v in kw.items()) or 'no keyword', run, post, facts, models, native=native, observe_sym=observe)


class Declaration(Unit):
    name = 'CasadiStructEntry.__init__'
    targets = (CE.__init__, S3.StructEntry.__init__, S3.is_integer, S3.is_string)
    part = (0, 1)
    assumptions = (TRUSTED_SP, 'lists nested in expr: up to three levels, of any lengths', 'one value of every kind per keyword: all kinds alone and in pairs, one kind in larger combinations')

    def cases(self):
        i, n = self.part
        for j, kw in enumerate(combos(values())):
            if j % n == i:
                yield entry_case(kw)
        if i:
            return
        v = values()
        for x in ('shapes', 'rep', 'dims', 'name', 'Shape'):
            yield entry_case({}, extra=[x], label='unknown keyword %s' % x)
            yield entry_case({'shape': v['shape'][0]}, extra=[x], label='unknown keyword %s with shape' % x)
        for args in ((), ('nm', 'extra'), ('nm', 'extra', 3)):
            yield entry_case({}, args=args, label='%d positional arguments' % len(args))
            yield entry_case({'shape': v['shape'][0]}, args=args, label='%d positional arguments with shape' % len(args))


def _part(i, n):
    return type('Declaration%d' % i, (Declaration,), {'part': (i, n), 'name': 'CasadiStructEntry.__init__ (%d/%d)' % (i + 1, n)})


def entry_model(it, *args, **kw):
    """contract of the declaration of an entry, as far as lists of entries need it"""
    if len(args) != 1:
        raise PyRaise(Exception)
    return Obj(CE, {'name': args[0]})


class EntryFn(Unit):
    name = 'entry'
    targets = (S3.entry,)

    def cases(self):
        C = {('new', CE): lambda it, *a, **k: rec('declared', tuple(a), *[(x, k[x]) for x in k])}
        e = rec('given', cls=CE)
        r = var('r')
        for label, a, k, want in (
                ('an entry', [e], {}, e),
                ('a name', ['nm'], {}, rec('declared', ('nm',))),
                ('a name with keywords', ['nm'], dict(shape=r, repeat=2), rec('declared', ('nm',), ('shape', r), ('repeat', 2))),
                ('nothing', [], {}, rec('declared', ())),
                ('two names', ['a', 'b'], {}, rec('declared', ('a', 'b'))),
                ('an entry and a name', [e, 'b'], {}, rec('declared', (e, 'b')))):
            yield case(label, lambda it, a=a, k=k: direct(it, S3.entry, a, k), returns(want), contracts=dict(C), models=lambda rng: [mkmodel({'r': 2})])


# ------------------------------------------------------------------ lists of entries and orders
def patterns(n):
    """names of n entries up to renaming"""
    def rec_(i, used):
        if i == n:
            yield []
            return
        for x in range(used + 1):
            for rest in rec_(i + 1, max(used, x + 1)):
                yield ['abcdef'[x]] + rest
    return list(rec_(0, 0))


def groupings(l):
    """ways of grouping consecutive elements in tuples"""
    if not l:
        yield []
        return
    for rest in groupings(l[1:]):
        yield [l[0]] + rest
    for k in range(1, len(l) + 1):
        for rest in groupings(l[k:]):
            yield [tuple(l[:k])] + rest


def flat(l):
    return [n for x in l for n in (x if isinstance(x, tuple) else [x])]


def orders(names):
    names = list(dict.fromkeys(names))
    out = [None, []]
    for k in range(1, len(names) + 2):
        for p in itertools.product(names + ['zz'], repeat=k):
            out.append(list(p))
    out += [o for p in itertools.permutations(names) for o in groupings(list(p)) if any(isinstance(x, tuple) for x in o)]
    out += [[tuple(names + ['zz'])], [tuple(names + names[:1])]] if names else []
    return out


class Lists(Unit):
    name = 'EntryList (elements)'
    targets = (S3.EntryList.__init__,)
    bound = 'lists of up to four entries, every pattern of equal names and every grouping in tuples'
    assumptions = ('contract of entry',)

    def cases(self):
        C = {S3.entry: lambda it, *a, **k: a[0] if len(a) == 1 and isinstance(a[0], Obj) else entry_model(it, *a, **k)}
        for n in range(5):
            for p in patterns(n):
                for g in groupings(p):
                    for order in (None, p, p[::-1], [], [tuple(p)]):
                        grouped = any(isinstance(x, tuple) for x in g)
                        ok = len(set(p)) == n and not (grouped and order is not None)

                        def run(it, g=g, order=order):
                            mk = lambda x: Obj(CE, {'name': x})
                            arg = Lst([tuple(mk(x) if i % 2 else x for i, x in enumerate(y)) if isinstance(y, tuple) else mk(y) for y in g])
                            return it.call(S3.EntryList, [arg], {} if order is None else {'order': Lst(order)})

                        def post(it, kind, v, ctx, p=p, g=g, order=order, ok=ok):
                            if kind == 'raise':
                                yield 'raises-only-when-invalid', lift(not ok)
                                return
                            yield 'accepts-only-valid', lift(ok)
                            if ok:
                                yield 'entries', lift([it.getattr(e, 'name') for e in it.getattr(v, 'entries')] == p)
                                yield 'order', lift(list(it.getattr(v, 'order')) == (g if order is None else order))
                        inst = dict(kind='list', items=[list(x) if isinstance(x, tuple) else x for x in g], order=None if order is None else [list(x) if isinstance(x, tuple) else x for x in order], arg='list')
                        if any(isinstance(x, tuple) and not x for x in (order or [])):
                            inst = None

                        def native(m, g=g, order=order):
                            return len(S3.EntryList([tuple(S3.entry(x) for x in y) if isinstance(y, tuple) else S3.entry(y) for y in g], order=order).entries)
                        yield case('%r order %r' % (g, order), run, post, contracts=dict(C), models=lambda rng, inst=inst: [mkmodel({}, inst=inst)], native=native, observe_sym=lambda v: len(v.attrs['entries']))
        for label, arg in (('tuple', ()), ('dictionary', Dct({})), ('string', 'ab'), ('number', 3), ('nothing', None)):
            yield case('given as %s' % label, lambda it, arg=arg: it.call(S3.EntryList, [arg], {}), raises())


class Orders(Unit):
    name = 'Structure.__init__ (elements)'
    targets = (S3.Structure.__init__, S3.Structure.keys)
    bound = 'up to three entries of different names (EntryList rejects others), every order of the names and one unknown name with up to one superfluous element, every grouping in tuples'

    def cases(self):
        for n in range(4):
            for p in [['ab', 'cd', 'ef'][:n]]:
                for o in orders(p):
                    f = p if o is None else flat(o)
                    ok = len(set(p)) == n and sorted(f) == sorted(p)

                    def run(it, p=p, o=o):
                        return it.call(S3.Structure, [Lst([Obj(CE, {'name': x}) for x in p])], {} if o is None else {'order': Lst(o)})

                    def post(it, kind, v, ctx, p=p, f=f, o=o, ok=ok):
                        if kind == 'raise':
                            yield 'raises-only-when-invalid', lift(not ok)
                            return
                        yield 'accepts-only-valid', lift(ok)
                        if ok:
                            yield 'keys', lift(list(it.call(it.getattr(v, 'keys'), [], {})) == f)
                            for x in p:
                                yield 'entry %s' % x, lift(it.getattr(it.getitem(it.getattr(v, 'dict'), x), 'name') == x)
                    inst = dict(kind='list', items=list(p), order=None if o is None else [list(x) if isinstance(x, tuple) else x for x in o], arg='list')
                    yield case('%r order %r' % (p, o), run, post, models=lambda rng, inst=inst: [mkmodel({}, inst=inst)],
                               native=lambda m, p=p, o=o: len(S3.Structure([S3.entry(x) for x in p], order=o).keys()), observe_sym=lambda v: len(v.attrs['keyslist']))


# ------------------------------------------------------------------ any number of entries
N1, N2, M1 = var('N1'), var('N2'), var('M1')


def gsize(k):
    return app('gsize', k, sort='I')


def isgroup(k):
    return app('isgroup', k, sort='B')


def forms(item, tuples=True):
    """label, sequence, flattened sequence; item(tag, indices...) makes an element"""
    some = lambda tag, n: Seg(n, (k := fresh('k')), [item(tag, k)])
    yield 'single elements', [some('a', N1)], [some('a', N1)]
    yield 'elements and a group', [some('a', N1), tuple([some('g', M1)])], [some('a', N1), some('g', M1)]
    yield 'a group and elements', [tuple([some('g', M1)]), some('b', N2)], [some('g', M1), some('b', N2)]
    row = lambda k: Seg(gsize(k), (j := fresh('j')), [item('g', k, j)])
    yield 'groups', [Seg(N1, (k := fresh('k')), [tuple([row(k)])])], [Seg(N1, (k2 := fresh('k')), [row(k2)])]
    once = lambda c, x: Seg(ite(c, 1, 0), fresh('once'), [x])
    k3, k4 = fresh('k'), fresh('k')
    yield 'elements and groups in any order', [Seg(N1, k3, [rec('ite', isgroup(k3), tuple([row(k3)]), item('a', k3))])], [Seg(N1, k4, [once(isgroup(k4), row(k4)), once(not_(isgroup(k4)), item('a', k4))])]


NS = [le(0, N1), le(0, N2), le(0, M1)]


def any_numbers(rng):
    for _ in range(3):
        vs = {'N1': rng.randint(0, 2), 'N2': rng.randint(0, 2), 'M1': rng.randint(0, 2)}
        step = rng.choice((0, 1))
        yield mkmodel(vs, funs={'gsize': lambda k: Fraction(2), 'isgroup': lambda k: int(k) % 2 == step, 'code:name:a': lambda k: Fraction(k * step), 'code:name:b': lambda k: Fraction(7 + k), 'code:name:o': lambda k: Fraction(k),
                                'code:name:g': lambda k, j=0: Fraction(20 + 3 * k + j)})


def group_sizes():
    k = fresh('k')
    return forall(k, ZERO, N1, le(ZERO, gsize(k)))


class ListsN(Unit):
    name = 'EntryList'
    targets = (S3.EntryList.__init__,)
    assumptions = ('contract of entry', 'names are compared by an integer each (injective)',
                   'Python: set(l) has as many elements as l exactly when these differ from each other')

    def cases(self):
        entry = lambda tag, *i: rec('entry', rec('given:' + tag, *i), cls=CE, name=lambda it, e: named(e.args[0].name[6:], *e.args[0].args))
        C = {S3.entry: lambda it, x: (lambda x: entry(x.name[6:], *x.args))(it.force(x))}
        given = lambda tag, *i: rec('given:' + tag, *i, cls=CE if tag == 'b' else str)
        for label, arg, flat_ in forms(given):
            for order in (None, Lst([Seg(M1, (k := fresh('k')), [named('o', k)])])):
                grouped = label != 'single elements'
                # a list of no groups is a list without groups
                k = fresh('k')
                some = {'groups': lt(ZERO, N1), 'elements and groups in any order': exists(k, ZERO, N1, isgroup(k))}.get(label, TRUE)

                def run(it, arg=arg, order=order):
                    return it.call(S3.EntryList, [Lst(arg)], {} if order is None else {'order': order})

                def post(it, kind, v, ctx, arg=arg, flat_=flat_, order=order, grouped=grouped, some=some):
                    ok = NPM.distinct(it, rename(flat_))
                    if grouped and order is not None:
                        ok = and_(ok, not_(some))
                    if kind == 'raise':
                        yield 'raises-only-when-invalid', not_(ok)
                        return
                    yield 'accepts-only-valid', ok
                    yield from veq('entries', it.getattr(v, 'entries'), Lst(rename(flat_, entry)), ctx)
                    yield from veq('order', it.getattr(v, 'order'), Lst(rename(arg)) if order is None else order, ctx)
                yield case('%s%s' % (label, '' if order is None else ' and an order'), run, post, NS + [group_sizes()], any_numbers, dict(C))


def rename(parts, f=None):
    """the names (or other things) belonging to the given elements"""
    f = f or named
    if isinstance(parts, tuple):
        return tuple(rename(list(parts), f))
    if isinstance(parts, list):
        return [rename(p, f) for p in parts]
    if isinstance(parts, Seg):
        return Seg(parts.n, parts.var, rename(parts.elems, f))
    if parts.name == 'ite':
        return rec('ite', parts.args[0], *[rename(x, f) for x in parts.args[1:]])
    return f(parts.name[6:], *parts.args)


class OrdersN(Unit):
    name = 'Structure.__init__'
    targets = (S3.Structure.__init__, S3.Structure.keys, S3.SafeDict.__getitem__)
    assumptions = ('names are compared by an integer each (injective)', 'entries have different names (EntryList rejects others)',
                   'Python: sorted lists are equal exactly when they have the same elements equally often')

    def cases(self):
        n = var('n')
        entry = lambda k: rec('entry', k, cls=CE, name=lambda it, e: named('e', *e.args))
        i, j = fresh('i'), fresh('j')
        code = lambda k: app('code:name:e', k, sort='I')
        differ = [forall(i, ZERO, n, forall(j, ZERO, n, or_(eq(i, j), ne(code(i), code(j)))))]

        def mk(label, order, flat_):
            def run(it):
                return it.call(S3.Structure, [seq(n, entry)], {} if order is None else {'order': Lst(order)})

            def post(it, kind, v, ctx):
                names = [Seg(n, (k := fresh('k')), [named('e', k)])]
                ok = TRUE if order is None else and_(eq(lift(it.length(Lst(flat_))), n), NPM.within(it, flat_, names), NPM.within(it, names, flat_))
                if kind == 'raise':
                    yield 'raises-only-when-invalid', not_(ok)
                    return
                yield 'accepts-only-valid', ok
                yield from veq('keys', it.call(it.getattr(v, 'keys'), [], {}), Lst(names if order is None else flat_), ctx)
                yield from veq('order', it.getattr(v, 'order'), Lst(names if order is None else order), ctx)
                q = fresh('q')
                old, it.ctx = it.ctx, ctx.rng(q, ZERO, n)
                e = it.getitem(it.getattr(v, 'dict'), named('e', q))
                it.ctx = old
                yield from veq('entry', e, entry(q), ctx.rng(q, ZERO, n))
            models = lambda rng: [mkmodel(dict(m.vars, n=m.vars['N1']), funs=dict(m.funs, **{'code:name:e': lambda k: Fraction(k)})) for m in any_numbers(rng)]
            return case(label, run, post, NS + [le(0, n), group_sizes()] + differ, models)
        yield mk('no order', None, None)
        for label, arg, flat_ in forms(lambda tag, *k: named(tag, *k)):
            yield mk('order: ' + label, arg, flat_)


class Integers(Unit):
    name = 'is_integer, is_string'
    targets = (S3.is_integer, S3.is_string)

    def cases(self):
        values = [('integer', var('q'), 3, True, False)]
        values += [(c.__name__, rec('value', cls=c), c(3), True, False) for c in (np.int8, np.int32, np.int64, np.uint16)]
        values += [(c.__name__, rec('value', cls=c), c('3'), False, c is str) for c in (str, float, np.float64, np.str_)]
        values += [('nothing', None, None, False, False), ('list', Lst([var('q')]), [3], False, False), ('real', var('x', 'R'), 2., False, False)]
        for label, sym, val, integer, text in values:
            for f, want in ((S3.is_integer, integer), (S3.is_string, text or label == 'str_')):
                yield case('%s of %s' % (f.__name__, label), lambda it, f=f, sym=sym: it.branch(it.truth(it.call(f, [sym], {}))), returns(want), models=lambda rng: [mkmodel({'q': 3, 'x': 2})], native=lambda m, f=f, val=val: bool(f(val)))


UNITS = [Integers] + [_part(i, 4) for i in range(4)] + [EntryFn, Lists, ListsN, Orders, OrdersN]
