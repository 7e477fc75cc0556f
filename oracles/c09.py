"""Native oracle of C09."""
from .scheme import *

BOUND = 'random nonlinear models and options, N <= 12 intervals of different length, order <= 5, up to 3 states, inputs and parameters'


def instances(rng, tier):
    while True:
        yield rand_scheme(rng, True)


def check(d):
    m, s = build_native(d)
    r = Ref(d)
    rep = bool(d['kw'].get('repeat_param'))
    NM = d['N'] * d['M']
    if sorted(s.eq.keys()) != ['collocation', 'continuity', 'param']:
        return 'entries %s' % (s.eq.keys(),)
    col, par, flat, cont = evaluate(d, s, [s.eq['collocation'], s.eq['param'], s.eq.cat, s.eq['continuity']])
    P = d['P']
    diff = [[P[i][k + 1] - P[i][k] for i in range(d['np'])] for k in range(NM - 1)] if rep else []
    if s.p.shape != (d['np'], NM if rep else 1):
        return 'parameter has shape %s' % (s.p.shape,)
    if not s.p.is_valid_input():
        return 'parameter is not symbolic'
    return first(
        lambda: cmp('collocation', col, r.res, d['nx'] + d['nz']),
        lambda: None if not (par.size and not rep) else 'parameter equations without repeated parameters',
        lambda: cmp('param', par, diff, d['np']) if rep else None,
        lambda: cmp('eq', flat.T, [[v] for v in np.concatenate([a.flatten('F') for a in (col, cont, par)])], 1))
