"""C17: inequalities and their concatenation."""
import itertools
import casadi as cs
from .util import *
from .structs import rec, seq, veq, case, require, SDct, vsubst
from pyvc.interp import Star
from pyvc.models_cs import csarr, INF, NAN
from casadi_extras import inequality as I
from casadi_extras import structure3 as S3

ASSUME = ('inf and nan are two constants', 'a named tuple holds its arguments')
BASE = I.Inequality.__mro__[1]
FIELDS = ('expr', 'lb', 'ub', 'nominal')


def named_tuple(it, cls, *a, **k):
    """the generated constructor of collections.namedtuple"""
    kw = dict(zip(FIELDS, a), **k)
    if set(kw) != set(FIELDS):
        raise PyRaise(TypeError)
    return Obj(cls, kw)


TUPLE = {BASE.__new__: named_tuple}
LOW, HIGH = mul(-1, INF), INF


def shape(k): return var('r:' + k), var('c:' + k)


def matrix(k, kind, sh=None):
    return Arr(sh or shape(k), lambda i, j: app('m:' + k, i, j), kind=kind)


def shape_ctx(keys, extra=()):
    return Ctx([le(0, v) for k in keys for v in shape(k)] + list(extra))


def is_const(a, sh, v, ctx, name):
    yield from arr_posts(name, a, sh, lambda i, j: v, ctx)


def is_given(a, b, ctx, name):
    yield from arr_posts(name, a, b.shape, b.at, ctx)


def fields_post(o, e, given, ctx, missing=None):
    """bounds of an inequality with expression e and the given bounds (None: missing)"""
    if not (isinstance(o, Obj) and issubclass(o.cls, I.Inequality)):
        yield 'inequality', FALSE
        return
    f = o.attrs
    yield 'expression', lift(f['expr'] is e)
    for k, v in (('lb', LOW), ('ub', HIGH)):
        if not is_arr(f[k], 2):
            yield k, FALSE
        elif given.get(k) is None:
            yield from is_const(f[k], e.shape, v, ctx, k + '-infinite')
        else:
            yield from is_given(f[k], given[k], ctx, k + '-kept')
    if given.get('nominal') is None:
        yield 'nominal', lift(f['nominal'] is None)
    elif not is_arr(f['nominal'], 2):
        yield 'nominal', FALSE
    else:
        yield from is_given(f['nominal'], given['nominal'], ctx, 'nominal-kept')


class New(Unit):
    name = 'Inequality'
    targets = (I.Inequality.__new__, I.Inequality.numel, I._convertToDmIfNotDmStruct)
    assumptions = ASSUME

    def cases(self):
        for n in range(4):
            for ks in itertools.combinations(('lb', 'ub', 'nominal'), n):
                for kw in (True, False):
                    yield self.case(ks, kw)

    def case(self, ks, kw):
        c = Case(label='%s given%s' % (','.join(ks) or 'nothing', '' if kw else ' by position'), ctx=shape_ctx(('e',) + ks), tables=[TUPLE])
        e = matrix('e', 'MX')
        given = {k: matrix(k, 'DM') for k in ks}

        def run(it):
            o = it.call(I.Inequality, [e] if kw else [e] + [given.get(k) for k in FIELDS[1:]], dict(given) if kw else {})
            return o, it.call(it.getattr(o, 'numel'), [], {})
        c.run = run
        ok = and_(TRUE, *[and_(eq(shape(k)[0], shape('e')[0]), eq(shape(k)[1], shape('e')[1])) for k in ks])

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'rejects-only-mismatch', not_(ok)
                return
            yield 'shapes-match', ok
            yield from fields_post(v[0], e, given, ctx)
            yield 'numel', eq(lift(v[1]), mul(*shape('e')))
        c.post = post

        def models(rng):
            for i in range(4):
                sh = [rng.randint(0, 3), rng.randint(1, 2)]
                d = {'e': sh}
                for k in ks:
                    d[k] = sh if i < 2 or rng.random() < .5 else [rng.randint(0, 3), rng.randint(1, 2)]
                vs = {}
                for k, s in d.items():
                    vs['r:' + k], vs['c:' + k] = s
                inst = dict(kind='one', shape=sh, T='MX', seed=rng.randint(0, 99), **{k: {'shape': d[k], 'as': 'DM', 'inf': False} if k in ks else None for k in FIELDS[1:]})
                yield mkmodel(vs, funs={'m:' + k: (lambda q: lambda a, b: Fraction(q + 2 * int(a) + 7 * int(b)))(n) for n, k in enumerate(d)}, inst=inst, d=d)
        c.models = models

        def native(mo):
            d = mo.native['d']
            m = {k: cs.DM([[n + 2. * a + 7 * b for b in range(s[1])] for a in range(s[0])]) if s[0] else cs.DM(*s) for n, (k, s) in enumerate(d.items())}
            o = I.Inequality(cs.MX.sym('e', *d['e']), **{k: m[k] for k in ks})
            return [cs.DM(getattr(o, k)).full().tolist() for k in ks], o.numel()
        c.native = native
        c.observe_sym = lambda v: ([v[0].attrs[k] for k in ks], v[1])
        return c


class Converted(Unit):
    name = 'Inequality (numbers of other types)'
    targets = (I.Inequality.__new__, I._convertToDmIfNotDmStruct)
    assumptions = ASSUME + ('casadi: DM of a list of numbers is a column, DM of an array has its elements',)

    def cases(self):
        for k in FIELDS[1:]:
            for kind in ('list', 'tuple', 'array', 'vector', 'structured'):
                yield self.case(k, kind)

    def case(self, k, kind):
        c = Case(label='%s given as %s' % (k, kind), ctx=shape_ctx(('e', k)), tables=[TUPLE])
        e = matrix('e', 'MX')
        rw, cl = shape(k)
        if kind != 'array':
            cl = ONE
        f = lambda i, j=ZERO: app('m:' + k, i, j)
        col = {'list': lambda: seq(rw, f), 'tuple': lambda: seq(rw, f, tuple), 'array': lambda: Arr((rw, cl), f), 'vector': lambda: Arr((rw,), f),
               'structured': lambda: rec('numbers', cls=S3.DMStruct, shape=lambda it, x: (rw, ONE))}[kind]()
        c.run = lambda it: it.call(I.Inequality, [e], {k: col})
        ok = and_(eq(rw, shape('e')[0]), eq(cl, shape('e')[1]))

        def post(it, how, v, ctx):
            if how == 'raise':
                yield 'rejects-only-mismatch', not_(ok)
                return
            yield 'shapes-match', ok
            if kind == 'structured':
                yield 'structured numbers are kept', lift(isinstance(v, Obj) and v.attrs.get(k) is col)
                return
            yield from fields_post(v, e, {k: Arr((rw, cl), f)}, ctx)
        c.post = post

        def models(rng):
            for i in range(4):
                sh = [rng.randint(1, 3), rng.randint(1, 2) if kind == 'array' else 1]
                d = {'e': sh, k: sh if i < 2 else [rng.randint(1, 3), sh[1]]}
                vs = {}
                for x, s in d.items():
                    vs['r:' + x], vs['c:' + x] = s
                yield mkmodel(vs, funs={'m:' + k: lambda a, b: Fraction(1 + 2 * int(a) + 7 * int(b)), 'm:e': lambda a, b: Fraction(0)}, d=d)
        c.models = models

        def native(mo):
            d = mo.native['d']
            m = np.array([[1 + 2. * a + 7 * b for b in range(d[k][1])] for a in range(d[k][0])])
            x = m if kind == 'array' else m.ravel() if kind == 'vector' else list(m.ravel()) if kind == 'list' else tuple(m.ravel())
            return cs.DM(getattr(I.Inequality(cs.MX.sym('e', *d['e']), **{k: x}), k)).full().tolist()
        if kind != 'structured':
            c.native = native
            c.observe_sym = lambda v: v.attrs[k]
        return c


class Bounded(Unit):
    name = 'BoundedVariable'
    targets = (I.BoundedVariable.__new__, I.Inequality.__new__, I._convertToDmIfNotDmStruct)
    assumptions = ASSUME

    def cases(self):
        for ks in ((), ('lb',), ('ub',), ('lb', 'ub')):
            yield self.case(ks)

    def case(self, ks):
        c = Case(label=','.join(ks) or 'nothing', ctx=shape_ctx(('nominal',) + ks), tables=[TUPLE])
        given = {k: matrix(k, 'DM') for k in ks + ('nominal',)}

        def run(it):
            return it.call(I.BoundedVariable, ['v'], dict(given))
        c.run = run
        sh = shape('nominal')
        ok = and_(TRUE, *[and_(eq(shape(k)[0], sh[0]), eq(shape(k)[1], sh[1])) for k in ks])

        def post(it, kind, v, ctx):
            if kind == 'raise':
                yield 'rejects-only-mismatch', not_(ok)
                return
            yield 'shapes-match', ok
            e = v.attrs.get('expr') if isinstance(v, Obj) else None
            yield 'is-a-bounded-variable', lift(isinstance(v, Obj) and v.cls is I.BoundedVariable)
            if not is_arr(e, 2):
                yield 'symbol', FALSE
                return
            yield 'symbol', and_(lift(bool(e.sym)), eq(e.shape[0], sh[0]), eq(e.shape[1], sh[1]))
            yield from fields_post(v, e, given, ctx)
        c.post = post

        def models(rng):
            for i in range(4):
                s = [rng.randint(0, 3), 1]
                d = {'nominal': s}
                for k in ks:
                    d[k] = s if i < 2 or rng.random() < .5 else [rng.randint(0, 3), 1]
                vs = {}
                for k, q in d.items():
                    vs['r:' + k], vs['c:' + k] = q
                inst = dict(kind='var', shape=s, name='v', default=False, seed=rng.randint(0, 99), **{k: {'shape': d[k], 'as': 'DM', 'inf': False} if k in ks else None for k in ('lb', 'ub')})
                yield mkmodel(vs, funs={'m:' + k: lambda a, b: Fraction(1) for k in d}, inst=inst)
        c.models = models
        return c


def part(i, mask):
    """an inequality as its constructor leaves it: bounds of the shape of the expression, nominal value if given"""
    sh = (var('r:%d' % i), var('c:%d' % i))
    f = {'expr': matrix('e%d' % i, 'MX', sh), 'lb': matrix('lb%d' % i, 'DM', sh), 'ub': matrix('ub%d' % i, 'DM', sh), 'nominal': matrix('no%d' % i, 'DM', sh) if mask[i] else None}
    return Obj(I.Inequality, f)


def part_models(c, masks, kind, names=None):
    def models(rng):
        for _ in range(2):
            cols = rng.choice([1, 2])
            vs, parts = {}, []
            for i, m in enumerate(masks):
                r = rng.randint(0 if kind == 'list' else 1, 3)
                vs['r:%d' % i], vs['c:%d' % i] = r, cols
                g = {'shape': [r, cols], 'as': 'DM', 'inf': False}
                parts.append(dict(shape=[r, cols], lb=g, ub=g, nominal=g if m else None))
            yield mkmodel(vs, inst=dict(kind=kind, parts=parts, names=names or ['a', 'b', 'c'][:len(parts)], seed=3))
    c.models = models


class VertcatList(Unit):
    name = 'vertcat(list) (elements)'
    targets = (I.vertcat, I._nominalOrNan, I.Inequality.__new__)
    assumptions = ASSUME
    bound = 'one to three inequalities of any size'

    def cases(self):
        for n in (1, 2, 3):
            for mask in itertools.product((True, False), repeat=n):
                yield self.case(mask)

    def case(self, mask):
        n = len(mask)
        facts = [le(0, var('r:%d' % i)) for i in range(n)] + [le(0, var('c:%d' % i)) for i in range(n)] + [eq(var('c:%d' % i), var('c:0')) for i in range(1, n)]
        c = Case(label='nominal values %s' % (mask,), ctx=Ctx(facts), tables=[TUPLE])
        ps = [part(i, mask) for i in range(n)]
        c.run = lambda it: it.call(I.vertcat, [Lst(ps)], {})

        def post(it, v, ctx):
            if not isinstance(v, Obj):
                yield 'inequality', FALSE
                return
            for k in FIELDS:
                a = v.attrs[k]
                if k == 'nominal' and not any(mask):
                    yield 'no-nominal', lift(a is None)
                    continue
                if not is_arr(a, 2):
                    yield k, FALSE
                    continue
                off = ZERO
                for i, p in enumerate(ps):
                    b = p.attrs[k]
                    r, s = fresh('r'), fresh('s')
                    want = NAN if b is None else b.at(r, s)
                    yield '%s-part-%d' % (k, i), eq(a.at(add(off, r), s), want), ctx.rng(r, ZERO, var('r:%d' % i)).rng(s, ZERO, var('c:0'))
                    off = add(off, var('r:%d' % i))
                yield k + '-shape', and_(eq(a.shape[0], off), eq(a.shape[1], var('c:0')))
        c.post = guard(post)
        part_models(c, mask, 'list')
        return c


def new_struct(it, entries, order=None):
    """C21: a structure holding the expressions by name, in order"""
    es = list(entries)
    if order is not None or not all(isinstance(e, Opq) and e.name == 'entry' for e in es):
        raise OutOfReach('struct_MX')
    it.oblige('distinct-names', lift(len({e.attrs['name'] for e in es}) == len(es)))
    size = ZERO
    for e in es:
        size = add(size, mul(*e.attrs['expr'].shape))
    return Obj(S3.MXVeccatStruct, {'parts': {e.attrs['name']: e.attrs['expr'] for e in es}, 'total': size})


def new_entry(it, *a, **kw):
    """C24"""
    if len(a) != 1 or set(kw) != {'expr'} or not isinstance(a[0], str):
        raise OutOfReach('entry')
    return Opq('entry', {'name': a[0], 'expr': csarr(it, kw['expr'])})


def call_struct(it, s, arg=0):
    """C19/C20: the numeric vector with the given entries"""
    if not isinstance(arg, dict):
        raise OutOfReach('structure called with something else than a dictionary')
    it.oblige('same-keys', lift(set(arg) == set(s.attrs['parts'])))
    parts = {}
    for k, e in s.attrs['parts'].items():
        v = csarr(it, arg[k])
        it.oblige('entry-shape', and_(eq(v.shape[0], e.shape[0]), eq(v.shape[1], e.shape[1])))
        parts[k] = v
    return Obj(S3.DMStruct, {'parts': parts, 'total': s.attrs['total']})


class VertcatDict(Unit):
    name = 'vertcat(dict) (elements)'
    bound = 'one to three inequalities of any size'
    targets = (I.vertcat, I._nominalOrNan, I.Inequality.__new__, I._convertToDmIfNotDmStruct)
    assumptions = ASSUME + ('contracts of entry (C24), struct_MX (C21), and of calling a structure with a dictionary (C19, C20)',)

    def cases(self):
        for n in (1, 2, 3):
            for mask in itertools.product((True, False), repeat=n):
                yield self.case(mask)

    def case(self, mask):
        n = len(mask)
        facts = [le(0, var(v + ':%d' % i)) for i in range(n) for v in 'rc']
        c = Case(label='nominal values %s' % (mask,), ctx=Ctx(facts), tables=[TUPLE], contracts={
            ('new', S3.MXVeccatStruct): new_struct, ('new', S3.CasadiStructEntry): new_entry, S3.entry: new_entry, S3.CasadiStructureDerivable.__call__: call_struct,
            S3.CasadiStructured.shape.fget: lambda it, o: (o.attrs['total'], ONE)})
        names = ['b', 'a', 'c'][:n]
        ps = dict(zip(names, [part(i, mask) for i in range(n)]))
        c.run = lambda it: it.call(I.vertcat, [Dct(ps)], {})

        def post(it, v, ctx):
            ok = isinstance(v, Obj) and isinstance(v.attrs['expr'], Obj) and v.attrs['expr'].cls is S3.MXVeccatStruct
            yield 'structured', lift(ok)
            if not ok:
                return
            yield 'keys', lift(list(v.attrs['expr'].attrs['parts']) == names)
            for k in FIELDS:
                a = v.attrs[k]
                if k == 'nominal' and not any(mask):
                    yield 'no-nominal', lift(a is None)
                    continue
                if not isinstance(a, Obj) or 'parts' not in a.attrs:
                    yield k, FALSE
                    continue
                for nm, p in ps.items():
                    b, q = p.attrs[k], a.attrs['parts'].get(nm)
                    if q is None:
                        yield k + '-' + nm, FALSE
                    else:
                        e = p.attrs['expr']
                        yield from arr_posts('%s-%s' % (k, nm), q, e.shape, b.at if b is not None else lambda i, j: NAN, ctx)
        c.post = guard(post)
        part_models(c, mask, 'dict', names)
        return c


# ------------------------------------------------------------------ any number of inequalities
N = var('n')
COLS = var('cols')


def rows(k): return app('rows', lift(k), sort='I')


def value(name, k, cls, **spec):
    return rec(name, k, cls=cls, shape=lambda it, m: (rows(m.args[0]), COLS), numel=lambda it, m: Model_(lambda it: mul(rows(m.args[0]), COLS)), **spec)


def inequality(k):
    """as the constructor leaves it: bounds of the shape of the expression, nominal value of that shape or none"""
    f = dict(expr=lambda it, q: value('expr', q.args[0], cs.MX), lb=lambda it, q: value('lb', q.args[0], cs.DM), ub=lambda it, q: value('ub', q.args[0], cs.DM),
             nominal=lambda it, q: value('nominal', q.args[0], cs.DM, **{'is None': lambda it, m: not_(app('has', lift(m.args[0]), sort='B'))}))
    return rec('inequality', k, cls=I.Inequality, **f)


def stacked(items, cls):
    i = fresh('i')
    return rec('vertcat', Lst(list(items)), cls=cls, shape=lambda it, m: (sum_(i, ZERO, sub(N, 1), rows(i)), COLS))


def some_nan(it, *sh):
    sh = sh[0] if len(sh) == 1 else sh
    return rec('nan', *[lift(x) for x in sh], cls=cs.DM, shape=lambda it, m: m.args)


some_nan.always = True


def matrix_of(it, x):
    if not (isinstance(x, Rec) and isinstance(x.cls, type) and issubclass(x.cls, cs.DM)):
        raise OutOfReach('conversion to a matrix')
    return x


matrix_of.always = True


def total(it, x):
    """the number of rows of all items"""
    i = fresh('i')
    return sum_(i, ZERO, sub(N, 1), rows(i))


def vertcat_(it, *a):
    items = [y for x in a for y in (x.v if isinstance(x, Star) else [x])]
    if len(items) != 1 or not isinstance(items[0], Seg):
        raise OutOfReach('vertcat')
    it.oblige('all of them', eq(items[0].n, N))
    k = fresh('k')
    e = vsubst(items[0].elems[0], {items[0].var: k})
    cls = None
    for x in alternatives(e):
        if not isinstance(x, Rec) or 'shape' not in x.spec:
            raise OutOfReach('vertcat')
        r, c = it.getattr(x, 'shape')
        it.oblige('rows', eq(r, rows(k)), it.ctx.rng(k, ZERO, N))
        it.oblige('columns', eq(c, COLS))
        cls = cs.MX if cs.MX in (cls, x.cls) else cs.DM
    return stacked(items, cls)


vertcat_.always = True


def alternatives(x):
    return alternatives(x.args[1]) + alternatives(x.args[2]) if isinstance(x, Rec) and x.name == 'ite' else [x]


ANY = {cs.vertcat: vertcat_, cs.DM.nan: some_nan, cs.DM: matrix_of}


def nominal_or_nan(k):
    return Rec('ite', (app('has', k, sort='B'), rec('nominal', k), rec('nan', rows(k), COLS)), None, {})


class Vertcat(Unit):
    name = 'vertcat'
    targets = (I.vertcat, I._nominalOrNan, I.Inequality.__new__, I._convertToDmIfNotDmStruct)
    assumptions = ASSUME + ('at least one inequality', 'casadi: vertcat stacks its arguments', 'contracts of entry (C24), struct_MX (C21), and of calling a structure with a dictionary (C19, C20)')

    def cases(self):
        k = fresh('k')
        none = forall(k, ZERO, N, not_(app('has', k, sort='B')))
        facts = [le(1, N), le(0, COLS)]

        def models(rng):
            for _ in range(4):
                n, cols = rng.randint(1, 3), rng.choice([1, 2])
                sizes = [rng.randint(1, 3) for _ in range(n)]
                mask = [rng.random() < .5 for _ in range(n)]
                g = lambda r: {'shape': [r, cols], 'as': 'DM', 'inf': False}
                parts = [dict(shape=[r, cols], lb=g(r), ub=g(r), nominal=g(r) if m else None) for r, m in zip(sizes, mask)]
                yield mkmodel({'n': n, 'cols': cols}, funs={'rows': lambda i, sizes=sizes: Fraction(sizes[int(i)] if 0 <= int(i) < len(sizes) else 0), 'has': lambda i, mask=mask: bool(mask[int(i)]) if 0 <= int(i) < len(mask) else False},
                              inst=dict(kind=self.kind, parts=parts, names=['b', 'a', 'c'][:n], seed=3))

        def key(k): return rec('key', k, cls=str)

        def entry(it, *a, **kw):
            if len(a) != 1 or set(kw) != {'expr'}:
                raise OutOfReach('entry')
            return rec('entry', a[0], kw['expr'])

        def struct(it, entries, order=None):
            if order is not None:
                raise OutOfReach('struct_MX')
            return rec('struct', Lst(list(entries)), cls=S3.MXVeccatStruct, __call__=numbers, shape=lambda it, m: (total(it, m), ONE))

        def numbers(it, s, arg=0):
            if not isinstance(arg, SDct):
                raise OutOfReach('structure called with something else than a dictionary')
            es = s.args[0]
            ks = [Seg(e.n, e.var, [e.elems[0].args[0]]) for e in es]
            require(it, 'same keys', it.comp_pairs(arg, 0), Lst(ks))
            return rec('numbers', arg, cls=S3.DMStruct, shape=lambda it, m: (total(it, m), ONE))

        def post(want):
            def check(it, kind, v, ctx):
                if kind == 'raise' or not isinstance(v, Obj) or not issubclass(v.cls, I.Inequality):
                    yield 'returns an inequality', FALSE
                    return
                f = v.attrs
                for x in ('expr', 'lb', 'ub'):
                    yield from veq(x, f[x], want(x, lambda k: rec(x, k)), ctx)
                if f['nominal'] is None:
                    yield 'no nominal values: none given', none
                else:
                    yield 'nominal values: some given', not_(none)
                    yield from veq('nominal', f['nominal'], want('nominal', nominal_or_nan), ctx)
            return check
        c = case('list', lambda it: it.call(I.vertcat, [seq(N, inequality)], {}), post(lambda x, f: rec('vertcat', seq(N, f))), facts, models, {}, [TUPLE, ANY])
        self.kind = 'list'
        yield c
        c = case('tuple', lambda it: it.call(I.vertcat, [seq(N, inequality, tuple)], {}), post(lambda x, f: rec('vertcat', seq(N, f))), facts, models, {}, [TUPLE, ANY])
        yield c
        self.kind = 'dict'
        C = {('new', S3.MXVeccatStruct): struct, ('new', S3.CasadiStructEntry): entry, S3.entry: entry}

        def pairs(x, f):
            if x == 'expr':
                return rec('struct', seq(N, lambda k: rec('entry', key(k), f(k))))
            return rec('numbers', SDct(list(seq(N, lambda k: (key(k), f(k))))))
        yield case('dictionary', lambda it: it.call(I.vertcat, [SDct(list(seq(N, lambda k: (key(k), inequality(k)))))], {}), post(pairs), facts, models, C, [TUPLE, ANY])


UNITS = [New, Converted, Bounded, Vertcat, VertcatList, VertcatDict]
