"""Helpers of the contracts of structures: uninterpreted values and equality of structured values."""
from .util import *
from casadi_extras import structure3 as S3

PARTIAL = 'a callee that raises makes its caller raise'


def rec(name, /, *args, cls=None, **spec):
    return Rec(name, args, cls, spec)


def seq(n, f, kind=Lst):
    """symbolic sequence with n elements f(i)"""
    k = fresh('k')
    return kind([Seg(n, k, [f(k)])])


def symlist(name, n, f=None):
    return seq(var(n), f or (lambda i: app(name, i, sort='I')))


def norm(parts, ctx):
    out = []
    for x in parts:
        if isinstance(x, Seg):
            if x.n.op == 'ite' and (d := ctx.decide(x.n.args[0])) is not None:
                out.extend(norm([Seg(x.n.args[1 if d else 2], x.var, x.elems)], ctx))
                continue
            if x.n is ZERO or ctx.decide(le(x.n, ZERO)):
                continue
            if isconst(x.n):
                for i in range(int(x.n.args[0])):
                    out.extend(norm([vsubst(e, {x.var: I(i)}) for e in x.elems], ctx))
                continue
        out.append(x)
    return out


def other_form(label, a, b, ctx):
    """sequences that cannot be compared part by part: their lengths may already differ"""
    if any(isinstance(x, FSeg) for x in a + b):
        raise OutOfReach('sequence of another form (%s)' % label)
    la, lb = [add(ZERO, *[x.count if isinstance(x, Seg) else ONE for x in l]) for l in (a, b)]
    if prove(eq(la, lb), ctx):
        raise OutOfReach('sequence of another form (%s)' % label)
    yield label + ':length', eq(la, lb), ctx


def regroup(label, a, b, ctx):
    """one of the sequences is a single segment"""
    def single(p):
        return len(p) == 1 and isinstance(p[0], Seg) and len(p[0].elems) == 1 and not p[0].nested
    if single(b):
        a, b = b, a
    if not single(a) or any(isinstance(y, FSeg) or isinstance(y, Seg) and (y.nested or len(y.elems) != 1) for y in b):
        yield from other_form(label, a, b, ctx)
        return
    s, off = a[0], ZERO
    for y in b:
        if isinstance(y, Seg):
            k = fresh('k')
            yield from veq(label, s.at(add(off, k)), y.at(k), ctx.rng(k, ZERO, y.n))
            off = add(off, y.n)
        else:
            yield from veq(label, s.at(off), y, ctx)
            off = add(off, ONE)
    yield label + ':length', eq(s.n, off), ctx


def seq_eq(label, a, b, ctx):
    a, b = norm(a, ctx), norm(b, ctx)
    for x in a + b:
        if isinstance(x, Seg) and x.n.op == 'ite':
            for c in (x.n.args[0], not_(x.n.args[0])):
                yield from seq_eq(label, a, b, ctx + c)
            return
    if len(a) != len(b):
        if not any(isinstance(x, (Seg, FSeg)) for x in a + b):
            yield label + ':length', FALSE, ctx
            return
        yield from regroup(label, a, b, ctx)
        return
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = [FSeg(p.n, p.var, TRUE, p.elems[0]) if isinstance(p, Seg) and isinstance(q, FSeg) and len(p.elems) == 1 and not p.nested else p for p, q in ((x, y), (y, x))]
        if isinstance(x, FSeg) and isinstance(y, FSeg):
            k = fresh('k')
            c = ctx.rng(k, ZERO, x.n)
            yield label + ':length', eq(x.n, y.n), ctx
            p, q = subst(x.cond, {x.var: k}), subst(y.cond, {y.var: k})
            yield label + ':filter', and_(implies(p, q), implies(q, p)), c
            yield from veq(label, vsubst(x.elem, {x.var: k}), vsubst(y.elem, {y.var: k}), c + p)
        elif isinstance(x, Seg) and isinstance(y, Seg):
            yield label + ':length', eq(x.n, y.n), ctx
            k = fresh('k')
            yield from seq_eq(label, [vsubst(e, {x.var: k}) for e in x.elems], [vsubst(e, {y.var: k}) for e in y.elems], ctx.rng(k, ZERO, x.n))
        elif isinstance(x, (Seg, FSeg)) or isinstance(y, (Seg, FSeg)):
            yield from other_form(label, a, b, ctx)
            return
        else:
            yield from veq(label, x, y, ctx)


def as_pairs(d):
    """the writes of a dictionary filled under symbolic keys"""
    def pair(e):
        if not isinstance(e, tuple) or e[0] != 'set':
            raise OutOfReach('dictionary of another form')
        return tuple(e[1:])
    if d.groups is not None or d.log.rec is not None:
        raise OutOfReach('dictionary of another form')
    out = [tuple(x) for x in d.items()]
    for x in d.log:
        out.append(Seg(x.n, x.var, [pair(e) for e in x.elems]) if isinstance(x, Seg) else FSeg(x.n, x.var, x.cond, pair(x.elem)) if isinstance(x, FSeg) else pair(x))
    return Lst(out)


def pykind(v):
    """what the value is in Python"""
    for k, t in (('number', (T, int, float, bool)), ('tuple', tuple), ('list', list), ('dict', (dict, SDct)), ('none', type(None)), ('text', str)):
        if isinstance(v, t):
            return k
    return None


def isnum(x):
    return isinstance(x, (T, int, float)) and not isinstance(x, bool)


def veq(label, a, b, ctx):
    """obligations for a == b (values)"""
    a, b = [SDct(as_pairs(x)) if isinstance(x, Dct) and x.log is not None else x for x in (a, b)]
    if a is b:
        yield label, TRUE, ctx
    elif isinstance(a, Rec) and a.name == 'ite' or isinstance(b, Rec) and b.name == 'ite':
        d = a if isinstance(a, Rec) and a.name == 'ite' else b
        for c, j in ((d.args[0], 1), (not_(d.args[0]), 2)):
            x, y = [v.args[j] if v is d else v for v in (a, b)]
            if (ctx + c).decide(c) is not False and ctx.decide(c) is not False:
                yield from veq(label, x, y, ctx + c)
    elif a is None and isinstance(b, (Rec, Obj)) or b is None and isinstance(a, (Rec, Obj)):
        name = lambda x: 'None' if x is None else x.name if isinstance(x, Rec) else x.cls.__name__
        yield '%s: %s for %s' % (label, name(a), name(b)), FALSE, ctx
    elif isnum(a) and isnum(b) or all(isinstance(x, bool) or isinstance(x, T) and x.sort == 'B' for x in (a, b)):
        yield label, eq(lift(a), lift(b)), ctx
    elif isinstance(a, Rec) and isinstance(b, Rec):
        if a.name != b.name or len(a.args) != len(b.args):
            yield '%s: %s is %s' % (label, a.name, b.name), FALSE, ctx
            return
        yield label, TRUE, ctx
        for x, y in zip(a.args, b.args):
            yield from veq(label, x, y, ctx)
    elif isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        yield from seq_eq(label, a, b, ctx)
    elif isinstance(a, slice) and isinstance(b, slice):
        for n in ('start', 'stop', 'step'):
            yield from veq(label, getattr(a, n), getattr(b, n), ctx)
    elif isinstance(a, SDct) and isinstance(b, SDct):
        yield from seq_eq(label, a.pairs, b.pairs, ctx)
    elif isinstance(a, dict) and isinstance(b, dict):
        yield label + ':keys', lift(list(a) == list(b)), ctx
        for k in a:
            if k in b:
                yield from veq('%s[%s]' % (label, k), a[k], b[k], ctx)
    elif isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        for n, g, *c in arr_posts(label, a, b.shape, b.at, ctx):
            yield n, g, c[0] if c else ctx
    elif isinstance(a, Obj) and isinstance(b, Obj):
        yield label, lift(a.cls is b.cls and set(a.attrs) == set(b.attrs)), ctx
        if a.cls is b.cls and set(a.attrs) == set(b.attrs):
            for k in a.attrs:
                yield from veq('%s.%s' % (label, k), a.attrs[k], b.attrs[k], ctx)
    elif type(a) is type(b) and not is_symbolic(a) and not is_symbolic(b):
        yield label, lift(bool(a == b)), ctx
    elif pykind(a) is None or pykind(b) is None or pykind(a) == pykind(b):
        raise OutOfReach('value of another form (%s: %s for %s)' % (label, type(a).__name__, type(b).__name__))
    else:
        yield '%s: %s for %s' % (label, type(a).__name__, type(b).__name__), FALSE, ctx


def named(tag, *idx):
    """a name, given by its number among all names"""
    return rec('name:' + tag, *idx, cls=str, code=lambda it, x: app('code:' + x.name, *x.args, sort='I'), __eq__=lambda it, x, y: same_name(x, y))


def same_name(x, y):
    if not all(isinstance(z, Rec) and z.name.startswith('name:') for z in (x, y)):
        raise OutOfReach('comparison of a name with something else')
    return eq(*[app('code:' + z.name, *z.args, sort='I') for z in (x, y)])


def require(it, label, a, b):
    """precondition a == b of the function under contract"""
    for n, g, *c in veq(label, a, b, it.ctx):
        it.oblige(n, g, c[0] if c else None)


def returns(want, cond=TRUE, exc=Exception):
    """post: returns want (a value or a function of the interpreter) when cond holds, raises otherwise"""
    def post(it, kind, v, ctx):
        if kind == 'raise':
            yield 'raises-only-when-invalid', not_(cond)
            yield 'exception', lift(isinstance(v.etype, type) and issubclass(v.etype, exc))
            return
        yield 'accepts-only-valid', cond
        yield from veq('result', v, want(it) if callable(want) and not isinstance(want, Rec) else want, ctx)
    return post


def raises(exc=Exception):
    def post(it, kind, v, ctx):
        yield 'raises', lift(kind == 'raise' and isinstance(v.etype, type) and issubclass(v.etype, exc))
    return post


def case(label, run, post, facts=(), models=None, contracts=None, tables=(), ctx=None, native=None, observe_sym=None):
    c = Case(label=label, ctx=ctx or Ctx(list(facts)), contracts=contracts or {}, tables=list(tables))
    c.run, c.post = run, post
    c.models = models or (lambda rng: [mkmodel({})])
    if native:
        c.native = native
    if observe_sym:
        c.observe_sym = observe_sym
    return c


def direct(it, fn, args, kw=None):
    """run the body of fn itself (calls inside go to the contracts)"""
    it.used.add(fn)
    return it.call_fn(fn, list(args), dict(kw or {}))
