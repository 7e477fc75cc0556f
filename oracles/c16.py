"""Native oracle of C16: conversions, created functions and parallel connections are evaluated at random points."""
from .dae import *

BOUND = 'random models with up to 4 elements per quantity, up to 4 (sometimes 12) models in parallel, functions of up to 7 inputs and 5 outputs'
ALL = dict(Dae=('x', 'z', 'u', 'p', 't', 'quad', 'tdp'), SemiExplicitDae=('x', 'z', 'u', 'p', 't', 'quad', 'tdp', 'ode', 'alg'), ImplicitDae=('x', 'z', 'u', 'p', 't', 'quad', 'tdp', 'xdot', 'dae'))
SYM = ('x', 'z', 'u', 'p', 't', 'tdp', 'xdot')


def sizes(rng, cls, big=True, time=True):
    """sizes of the quantities of a well-formed model"""
    q = {'x': [rng.randint(0, 4), 1, True]}
    for k in ('z', 'u', 'p', 'tdp', 'quad'):
        if rng.random() < .7 and (time or k != 'tdp'):
            q[k] = [rng.randint(0, 4), 1 if k in COLUMN or not big or rng.random() < .7 else rng.randint(1, 3), k != 'quad']
    if time and rng.random() < .7:
        q['t'] = [1, 1, True]
    n = lambda k: q[k][0] if k in q else 0
    if cls == 'SemiExplicitDae':
        q['ode'] = [n('x'), 1, False]
        if 'z' in q:
            q['alg'] = [n('z'), 1, False]
    if cls == 'ImplicitDae':
        q['xdot'] = [n('x'), 1, True]
        q['dae'] = [n('x') + n('z'), 1, False]
    return q


def instances(rng, tier):
    while True:
        c = rng.random()
        if c < .3:
            cls = rng.choice(['SemiExplicitDae', 'SemiExplicitDae', 'ImplicitDae'])
            yield dict(kind='implicit', cls=cls, q=sizes(rng, cls))
        elif c < .6:
            cls = rng.choice(sorted(ALL))
            q = sizes(rng, cls)
            ins = [k for k in q if k in SYM]
            rng.shuffle(ins)
            outs = [k for k in ALL[cls] if rng.random() < .5 and k not in SYM]  # casadi wants distinct names
            rng.shuffle(outs)
            yield dict(kind='function', cls=cls, q=q, ins=ins, outs=outs)
        else:
            yield dict(kind=rng.choice(['parallel'] * 5 + ['shared']), models=[sizes(rng, 'SemiExplicitDae', False, False) for _ in range(rng.choice([1, 2, 3, 4, 2, 3, 4, 12]))])


def build(q, cls, seed):
    """the model and its quantities; right-hand sides mix all the symbols"""
    r = np.random.RandomState(seed)
    v = {k: quantity(k, *a) for k, a in q.items() if k in SYM}
    arg = cs.vertcat(1, *[cs.vec(a) for a in v.values()])
    for k, (a, b, _) in q.items():
        if k not in v:
            v[k] = cs.reshape(cs.sin(cs.mtimes(cs.DM(r.uniform(-1, 1, (a * b, arg.numel()))), arg)), a, b) if a * b else cs.MX(a, b)
    return CLS[cls](**v), v


def point(v, r):
    return {k: cs.DM(r.uniform(-1, 1, a.shape)) for k, a in v.items() if k in SYM}


def value(e, v, pt):
    """value of an expression in the symbols of the model"""
    ks = list(pt)
    return cs.Function('e', [v[k] for k in ks], [cs.densify(e)])(*[pt[k] for k in ks])


def differ(a, b):
    a, b = cs.DM(a), cs.DM(b)
    return a.shape != b.shape or (a.numel() and not np.allclose(a.full(), b.full(), rtol=1e-12, atol=1e-12))


def implicit(d, r):
    m, v = build(d['q'], d['cls'], 1)
    o = m.makeImplicit()
    if d['cls'] == 'ImplicitDae':
        return None if o is m else 'an implicit model is converted to another object'
    if not isinstance(o, D.ImplicitDae):
        return 'result is a %s' % type(o).__name__
    for k in ('x', 'z', 'u', 'p', 't', 'quad', 'tdp'):
        a, b = getattr(o, k), getattr(m, k)
        if a is not b and not (a.shape == b.shape and cs.is_equal(a, b, 10)):
            return '%s changed' % k
    if o.xdot.shape != (m.nx, 1) or not o.xdot.is_valid_input():
        return 'xdot is %r' % o.xdot
    pt = point(v, r)
    w = dict(v, xdot=o.xdot)
    pt['xdot'] = cs.DM(r.uniform(-1, 1, o.xdot.shape))
    want = cs.vertcat(pt['xdot'] - value(v['ode'], w, pt), value(v['alg'], w, pt) if 'alg' in v else cs.DM(0, 1))
    got = value(o.dae, w, pt)
    if differ(got, want):
        return 'residual is %s instead of %s' % (got, want)
    return None


def function(d, r):
    m, v = build(d['q'], d['cls'], 2)
    # every symbol the outputs depend on has to be an input
    ins = list(d['ins']) + [k for k in v if k in SYM and k not in d['ins']]
    f = m.createFunction('fun', ins, list(d['outs']))
    if f.name() != 'fun' or f.name_in() != ins or f.name_out() != list(d['outs']):
        return 'signature is %s%s -> %s' % (f.name(), f.name_in(), f.name_out())
    pt = point(v, r)
    got = f.call([pt[k] for k in ins])
    for k, g in zip(d['outs'], got):
        want = value(v[k], v, pt) if k in v else cs.DM(0, 1)
        if k not in v and g.numel() == 0:
            continue
        if differ(g, want):
            return '%s is %s instead of %s' % (k, g, want)
    e = again(m, v, d, r, f, ins)
    if e:
        return e
    named = f(**pt)
    for k, g in zip(d['outs'], got):
        if differ(named[k], g):
            return 'named output %s differs' % k
    return None


def again(m, v, d, r, f, ins):
    """further functions of the same model, also with the same name, do not depend on the earlier ones"""
    pt = point(v, r)
    for name, i, outs in (('fun', ins[::-1], list(d['outs'])[::-1]), ('fun', ins, list(d['outs'])[:1]), ('gun', ins, list(d['outs']))):
        g = m.createFunction(name, i, outs)
        if g.name() != name or g.name_in() != i or g.name_out() != outs:
            return 'signature of a further function is %s%s -> %s' % (g.name(), g.name_in(), g.name_out())
        for k, a, b in zip(outs, g.call([pt[n] for n in i]), [dict(zip(d['outs'], f.call([pt[n] for n in ins])))[k] for k in outs]):
            if differ(a, b):
                return '%s of a further function is %s instead of %s' % (k, a, b)
    return None


def parallel(d, r):
    ms = [build(q, 'SemiExplicitDae', 10 + i) for i, q in enumerate(d['models'])]
    o = D.parallel([m for m, _ in ms])
    if not isinstance(o, D.SemiExplicitDae):
        return 'result is a %s' % type(o).__name__
    w, pt = {}, {}
    for i, (m, v) in enumerate(ms):
        for k, a in point(v, r).items():
            w['%s%d' % (k, i)] = v[k]
            pt['%s%d' % (k, i)] = a
    for k in ('x', 'z', 'u', 'p', 'ode', 'alg', 'quad'):
        got = value(cs.MX(getattr(o, k).cat if hasattr(getattr(o, k), 'cat') else getattr(o, k)), w, pt)
        want = cs.vertcat(cs.DM(0, 1), *[cs.vec(value(v[k], w, pt)) for m, v in ms if k in v])
        if differ(got, want):
            return '%s is %s instead of %s' % (k, got, want)
    # the stacked model is usable as a model of its own: its functions evaluate the members'
    xs = {k: cs.DM(r.uniform(-1, 1, (getattr(o, k).numel(), 1))) for k in ('x', 'z', 'u', 'p')}
    res = o.createFunction('all', list(xs), ['ode', 'alg', 'quad'])(**xs)
    pos = dict.fromkeys(xs, 0)
    want = {k: [] for k in res}
    for m, v in ms:
        part = {}
        for k in xs:
            n = v[k].numel() if k in v else 0
            if k in v:
                part[k] = cs.reshape(xs[k][pos[k]:pos[k] + n], v[k].shape)
            pos[k] += n
        for k in want:
            if k in v:
                want[k].append(cs.vec(value(v[k], v, part)))
    for k in want:
        if differ(res[k], cs.vertcat(cs.DM(0, 1), *want[k])):
            return 'function of the parallel model: %s is %s instead of %s' % (k, res[k], want[k])
    return None


def shared(d, r):
    """members with common quantities are stacked like any others"""
    n = len(d['models'])
    m, v = build(d['models'][0], 'SemiExplicitDae', 10)
    o = D.parallel([m] * n)
    pt = point(v, r)
    for k in ('x', 'z', 'u', 'p', 'ode', 'alg', 'quad'):
        got = value(cs.MX(getattr(o, k).cat if hasattr(getattr(o, k), 'cat') else getattr(o, k)), v, pt)
        want = cs.vertcat(cs.DM(0, 1), *([cs.vec(value(v[k], v, pt))] * n if k in v else []))
        if differ(got, want):
            return '%s of %d equal models is %s instead of %s' % (k, n, got, want)
    return None


def check(d):
    return dict(implicit=implicit, function=function, parallel=parallel, shared=shared)[d['kind']](d, np.random.RandomState(5))
