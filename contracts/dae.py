"""Symbolic DAE models."""
import casadi as cs
from .util import *
from casadi_extras import dae_model as D

COLUMN = ('x', 'z', 'u', 'ode', 'alg', 'xdot', 'dae')
PURE = ('x', 'z', 'u', 'p', 't', 'tdp')
MODEL = ('x', 'z', 'u', 'p', 't', 'quad', 'tdp')


def rows(k): return var('r:' + k)
def cols(k): return var('c:' + k)
def pure(k): return app('pure:' + k, sort='B')


def quantity(k, shape=None, valid=None):
    """a casadi expression of any shape that is purely symbolic or not"""
    a = Arr(shape or (rows(k), cols(k)), lambda i, j: app('q:' + k, i, j), kind='MX')
    a.valid = pure(k) if valid is None else valid
    return a


def quantity_ctx(keys, extra=()):
    return Ctx([le(0, f(k)) for k in keys for f in (rows, cols)] + list(extra))


def numel(k):
    return mul(rows(k), cols(k))


def well_formed(keys, cls):
    """the rules of the constructor, over the given keywords"""
    size = lambda k: numel(k) if k in keys else ZERO
    out = [eq(cols(k), 1) for k in keys if k in COLUMN]
    out += [pure(k) for k in keys if k in PURE]
    if 't' in keys:
        out += [eq(rows('t'), 1), eq(cols('t'), 1)]
    if cls is D.SemiExplicitDae:
        out.append(eq(numel('ode'), numel('x')))
        if 'alg' in keys:
            out.append(eq(numel('alg'), size('z')))
    if cls is D.ImplicitDae:
        out.append(eq(numel('xdot'), numel('x')))
        out.append(eq(numel('dae'), add(size('z'), numel('xdot'))))
    return and_(TRUE, *out)


def rand_quantities(rng, keys, cls, ok=None):
    """shapes and purity of the given quantities; mostly well-formed"""
    q = {}
    ok = rng.random() < .5 if ok is None else ok
    for k in keys:
        r, c = rng.randint(0, 3), 1
        if k == 't':
            r = 1
        q[k] = [r, c, True]
    if 'ode' in q:
        q['ode'][0] = q['x'][0]
    if 'alg' in q:
        q['alg'][0] = q['z'][0] if 'z' in q else 0
    if 'xdot' in q:
        q['xdot'][0] = q['x'][0]
        q['dae'][0] = q['x'][0] + (q['z'][0] if 'z' in q else 0)
    if not ok:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(sorted(q))
            c = rng.random()
            if c < .35:
                q[k][2] = False
            elif c < .6:
                q[k] = [q[k][1], q[k][0], q[k][2]]
            elif c < .8:
                q[k][0] += 1
            else:
                q[k][1] = rng.choice([0, 2])
    for v in q.values():
        if v[0] * v[1] == 0:
            v[2] = True         # casadi calls every empty expression purely symbolic
    return q


def native(k, r, c, valid):
    s = cs.MX.sym(k, r, c)
    return s if valid else 2 * s + 1
