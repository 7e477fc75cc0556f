"""Native oracle of C17: inequalities, bounded variables and their concatenation."""
import casadi as cs
import numpy as np
from .common import *
from casadi_extras import inequality as I
from casadi_extras import structure3 as S

BOUND = 'up to 12 inequalities of up to 4 x 3 elements, every combination of given, missing, scalar and wrongly shaped bounds; numbers, matrices, arrays and lists'


def rand_bound(rng, shape):
    """JSON description: None | {'shape': [r, c], 'as': ...}"""
    c = rng.random()
    if c < .25:
        return None
    if c < .85:
        s = list(shape)
    else:
        s = rng.choice([[shape[0] + 1, shape[1]], [shape[0], shape[1] + 1], [shape[1], shape[0]], [1, 1]])
    return {'shape': s, 'as': rng.choice(['DM', 'DM', 'np', 'num' if s == [1, 1] else 'DM', 'list' if s[1] == 1 and s[0] else 'DM']), 'inf': rng.random() < .3, 'zero': rng.random() < .1}


def instances(rng, tier):
    while True:
        c = rng.random()
        if c < .5:
            sh = [rng.randint(0, 4), rng.choice([1, 1, 1, 2, 3])]
            yield dict(kind='one', shape=sh, lb=rand_bound(rng, sh), ub=rand_bound(rng, sh), nominal=rand_bound(rng, sh), T=rng.choice(['MX', 'SX', 'expr']), seed=rng.randint(0, 10 ** 6))
        elif c < .65:
            sh = [rng.randint(0, 4), rng.choice([1, 1, 2])]
            yield dict(kind='var', shape=sh, lb=rand_bound(rng, sh), ub=rand_bound(rng, sh), name=rng.choice(['v', 'x_1']), default=rng.random() < .1, seed=rng.randint(0, 10 ** 6))
        else:
            d = c < .83
            cols = 1 if d else rng.choice([1, 1, 2])
            l = []
            for i in range(rng.randint(1, 5) if rng.random() < .85 else rng.randint(8, 12)):
                sh = [rng.randint(0 if not d else 1, 3), cols if not d else rng.choice([1, 1, 2])]
                given = lambda: {'shape': sh, 'as': 'DM', 'inf': False, 'zero': rng.random() < .15} if rng.random() < .7 else None
                l.append(dict(shape=sh, lb=given(), ub=given(), nominal=given() if rng.random() < .8 else None))
            if rng.random() < .2:
                for e in l:
                    e['nominal'] = None
            names = rng.sample(['a', 'b', 'c', 'zz', 'y', 'A', 'a1', 'a10', 'a2', 'B', 'x', 'x_'], len(l))
            yield dict(kind='dict' if d else 'list', parts=l, names=names, seed=rng.randint(0, 10 ** 6))


def bound(b, r):
    if b is None:
        return None, None
    if b.get('zero'):
        # no stored elements at all
        return cs.DM(*b['shape']), np.zeros(b['shape'])
    v = r.uniform(-2, 2, b['shape'])
    if b['inf'] and v.size:
        v.flat[r.randint(v.size)] = np.inf
    m = cs.DM(v) if v.size else cs.DM(*b['shape'])
    return (m if b['as'] == 'DM' else v if b['as'] == 'np' and v.size else float(v[0, 0]) if b['as'] == 'num' else [float(t) for t in v.ravel()] if b['as'] == 'list' else m), v


def expr(T, shape, name):
    s = (cs.SX if T == 'SX' else cs.MX).sym(name, *shape)
    return (2 * s + 1 if T == 'expr' else s)


def same(a, v):
    a = cs.DM(a)
    return a.shape == v.shape and np.array_equal(np.array(cs.densify(a)).reshape(v.shape), v, equal_nan=True)


def raw(m):
    return m.cat if hasattr(m, 'cat') else m


def fields(q, shape, lb, ub, nominal):
    """bounds of an inequality against the given numbers (None: missing)"""
    if tuple(raw(q.lb).shape) != tuple(shape) or tuple(raw(q.ub).shape) != tuple(shape):
        return 'bounds of shape %r, %r for an expression of shape %r' % (q.lb.shape, q.ub.shape, shape)
    if not same(raw(q.lb), np.full(shape, -np.inf) if lb is None else lb):
        return 'lower bound is %s instead of %s' % (q.lb, lb)
    if not same(raw(q.ub), np.full(shape, np.inf) if ub is None else ub):
        return 'upper bound is %s instead of %s' % (q.ub, ub)
    if (q.nominal is None) != (nominal is None):
        return 'nominal value is %s' % (q.nominal,)
    if nominal is not None and not same(raw(q.nominal), nominal):
        return 'nominal value is %s instead of %s' % (q.nominal, nominal)
    return None


def check(d):
    r = np.random.RandomState(d['seed'])
    if d['kind'] == 'one':
        sh = tuple(d['shape'])
        e = expr(d['T'], sh, 'e')
        (lb, lv), (ub, uv), (no, nv) = [bound(d[k], r) for k in ('lb', 'ub', 'nominal')]
        ok = all(v is None or v.shape == sh for v in (lv, uv, nv))
        kw = {k: v for k, v in (('lb', lb), ('ub', ub), ('nominal', no)) if v is not None or r.rand() < .5}
        try:
            q = I.Inequality(e, **kw) if r.rand() < .5 else I.Inequality(expr=e, **kw)
        except Exception as err:
            return None if not ok else 'valid inequality raises %r' % err
        if not ok:
            return 'bounds of shapes %r accepted for an expression of shape %r' % ([v.shape for v in (lv, uv, nv) if v is not None], sh)
        if q.expr is not e or q.numel() != sh[0] * sh[1]:
            return 'expression is %s with %r elements' % (q.expr, q.numel())
        if tuple(q) != (q.expr, q.lb, q.ub, q.nominal):
            return 'fields in another order'
        return fields(q, sh, lv, uv, nv)
    if d['kind'] == 'var':
        sh = tuple(d['shape'])
        n = cs.DM(r.uniform(1, 2, sh)) if sh[0] else cs.DM(*sh)
        if d['default']:
            q = I.BoundedVariable()
            return None if q.numel() == 0 and q.expr.shape == q.lb.shape == q.ub.shape == q.nominal.shape else 'default variable is %r' % (q,)
        (lb, lv), (ub, uv) = bound(d['lb'], r), bound(d['ub'], r)
        ok = all(v is None or v.shape == sh for v in (lv, uv))
        try:
            q = I.BoundedVariable(d['name'], lb, ub, n)
        except Exception as err:
            return None if not ok else 'valid variable raises %r' % err
        if not ok:
            return 'bounds of the wrong shape accepted'
        if q.expr.shape != sh or not q.expr.is_valid_input() or not isinstance(q.expr, cs.MX):
            return 'variable is %r' % q.expr
        if q.expr.is_symbolic() and q.expr.name() != d['name']:
            return 'variable is called %r' % q.expr.name()
        return fields(q, sh, lv, uv, np.array(n).reshape(sh))
    parts, vals, syms = [], [], []
    for i, p in enumerate(d['parts']):
        s = cs.MX.sym('s%d' % i, *p['shape'])
        syms.append(s)
        b = [bound(p[k], r) for k in ('lb', 'ub', 'nominal')]
        vals.append([x[1] for x in b])
        parts.append(I.Inequality(3 * s + i, *[x[0] for x in b]))
    is_dict = d['kind'] == 'dict'
    q = I.vertcat(dict(zip(d['names'], parts)) if is_dict else parts)
    if not isinstance(q, I.Inequality):
        return 'result is a %s' % type(q).__name__
    pts = [r.uniform(-1, 1, p['shape']) for p in d['parts']]
    flat = (lambda v: v.T.reshape(-1, 1)) if is_dict else (lambda v: v)
    f = cs.Function('f', syms, [cs.densify(raw(q.expr))])
    got = f(*[cs.DM(v) if v.size else cs.DM(*v.shape) for v in pts]) if len(pts) > 1 else f(cs.DM(pts[0]) if pts[0].size else cs.DM(*pts[0].shape))
    want = np.vstack([flat(3 * v + i) for i, v in enumerate(pts)])
    if got.shape != want.shape or not np.allclose(np.array(got).reshape(want.shape), want, rtol=1e-12, atol=1e-12):
        return 'expression is %s instead of %s' % (got, want)
    fill = lambda k, x: [np.full(p['shape'], x) if v[k] is None else v[k] for p, v in zip(d['parts'], vals)]
    st = lambda l: np.vstack([flat(v) for v in l])
    nominal = None if all(v[2] is None for v in vals) else st(fill(2, np.nan))
    e = fields(q, want.shape, st(fill(0, -np.inf)), st(fill(1, np.inf)), nominal)
    if e:
        return e
    if is_dict:
        for n, p, v in zip(d['names'], d['parts'], vals):
            for nm, k, x in (('lb', 0, -np.inf), ('ub', 1, np.inf), ('nominal', 2, np.nan)):
                if nm == 'nominal' and nominal is None:
                    continue
                w = np.full(p['shape'], x) if v[k] is None else v[k]
                if not same(getattr(q, nm)[n], w):
                    return '%s of %r is %s instead of %s' % (nm, n, getattr(q, nm)[n], w)
    return None
