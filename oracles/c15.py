"""Native oracle of C15: the constructors accept exactly the well-formed models and expose them."""
from .dae import *

BOUND = 'random quantities with up to 4 rows, each possibly of wrong shape or not purely symbolic, any subset of the optional keywords'


def instances(rng, tier):
    while True:
        cls = rng.choice(['Dae', 'SemiExplicitDae', 'ImplicitDae'])
        keys = list(NEED[cls]) + [k for k in OPT[cls] if rng.random() < .5]
        q = {}
        for k in keys:
            v = rng.choice([True, True, 'vertcat']) if k in PURE and k != 't' else True if k in ('x', 't', 'z') or rng.random() < .5 else rng.choice([False, False, 'sparse'])
            q[k] = [1 if k == 't' else rng.randint(0, 4), 1 if k in COLUMN or k == 't' or rng.random() < .7 else rng.randint(0, 3), v]
        n = lambda k: q[k][0] if k in q else 0
        if cls == 'SemiExplicitDae':
            q['ode'][0] = n('x')
            if 'alg' in q:
                q['alg'][0] = n('z')
        if cls == 'ImplicitDae':
            q['xdot'][0] = n('x')
            q['dae'][0] = n('x') + n('z')
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
            k = rng.choice(sorted(q))
            c = rng.random()
            if c < .35:
                q[k][2] = rng.choice([False, 'const', 'slice'])
            elif c < .55:
                q[k] = [q[k][1], q[k][0], q[k][2]]
            elif c < .8:
                q[k][0] = max(0, q[k][0] + rng.choice([-1, 1]))
            else:
                q[k][1] = rng.choice([0, 2, 3])
        yield dict(cls=cls, q=q, kind='SX' if rng.random() < .15 else 'MX')


def problems(d, v):
    """rules that are violated, in words"""
    out = []
    for k, a in v.items():
        if k in COLUMN and a.shape[1] != 1:
            out.append('%s is not a column' % k)
        if k in PURE and not is_pure(d['q'][k][2]) and a.numel():
            out.append('%s is not purely symbolic' % k)
    n = lambda k: v[k].numel() if k in v else 0
    if 't' in v and v['t'].shape != (1, 1):
        out.append('t is not scalar')
    if d['cls'] == 'SemiExplicitDae':
        if n('ode') != n('x'):
            out.append('ode and x differ in length')
        if 'alg' in v and n('alg') != n('z'):
            out.append('alg and z differ in length')
    if d['cls'] == 'ImplicitDae':
        if n('xdot') != n('x'):
            out.append('xdot and x differ in length')
        if n('dae') != n('z') + n('xdot'):
            out.append('dae has the wrong length')
    return out


def check(d):
    v = {k: quantity(k, *a, d.get('kind', 'MX')) for k, a in d['q'].items()}
    bad = problems(d, v)
    try:
        o = CLS[d['cls']](**v)
    except ValueError as e:
        return None if bad else 'well-formed model rejected: %s' % e
    if bad:
        return 'accepted although ' + ', '.join(bad)
    for k in OPT[d['cls']] + NEED[d['cls']]:
        a = getattr(o, k)
        if k in v:
            if a is not v[k] and not (a.shape == v[k].shape and cs.is_equal(a, v[k], 10)):
                return '%s is not the one given' % k
        elif k == 't':
            if a.shape != (1, 1) or not a.is_symbolic():
                return 'default t is %r' % a
        elif a.numel() != 0:
            return 'omitted %s has %d elements' % (k, a.numel())
        elif k in PURE and not a.is_valid_input():
            return 'omitted %s is not symbolic' % k
    for nm, k in (('nx', 'x'), ('nz', 'z'), ('nu', 'u'), ('np', 'p'), ('ntdp', 'tdp'), ('nq', 'quad')):
        w = v[k].numel() if k in v else 0
        if getattr(o, nm) != w:
            return '%s is %r instead of %d' % (nm, getattr(o, nm), w)
    return None
