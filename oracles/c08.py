"""Native oracle of C08."""
from .scheme import *

BOUND = 'random nonlinear models and options, N <= 12 intervals of different length, order <= 5, up to 3 states'


def instances(rng, tier):
    while True:
        yield rand_scheme(rng, True)


def check(d):
    m, s = build_native(d)
    r = Ref(d)
    X, co, U, x, K, Z, u, xd, p = evaluate(d, s, [s.X, s.eq['continuity'], s.U, s.x, s.K, s.Z, s.u, s.xdot, s.p])
    NM = d['N'] * d['M']
    T = lambda a: [list(c) for c in zip(*a)] if a else []
    return first(
        lambda: cmp('X', X, r.X, d['nx']),
        lambda: cmp('continuity', co, r.xf, d['nx']),
        lambda: cmp('tc', np.atleast_2d(s.tc), [[t] for t in r.tc], 1) if np.ndim(s.tc) == 1 else 'tc is not a vector',
        lambda: cmp('U', U, r.U, d['nu']),
        lambda: cmp('t', np.atleast_2d(s.t), [[t] for t in d['T']], 1),
        lambda: None if s.numTotalCollocationPoints == NM else 'numTotalCollocationPoints = %r' % s.numTotalCollocationPoints,
        lambda: None if all(a.is_valid_input() for a in (s.x, s.K, s.Z, s.u)) else 'variables are not symbolic',
        lambda: first(*['%s has shape %s' % (nm, e.shape) for nm, e, sh in (('x', s.x, (d['nx'], d['N'] + 1)), ('K', s.K, (d['nx'], NM)), ('Z', s.Z, (d['nz'], NM)), ('u', s.u, (d['nu'], d['N'])))
                        if e.shape != sh]),
        lambda: cmp('xdot', xd, T(d['K']), d['nx']))
