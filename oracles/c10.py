"""Native oracle of C10."""
from .scheme import *

BOUND = 'random nonlinear models and options, N <= 12 intervals of different length, order <= 5, up to 2 quadratures'


def instances(rng, tier):
    while True:
        d = rand_scheme(rng, True)
        if d['nq']:
            yield d
        elif rng.random() < .1:
            yield d


def check(d):
    m, s = build_native(d)
    r = Ref(d)
    quad, q, Q = evaluate(d, s, [s.quad, s.q, s.Q])
    return first(
        lambda: cmp('quad', quad, r.quad, d['nq']),
        lambda: cmp('q', q, r.q, d['nq']),
        lambda: cmp('Q', Q, r.Qs, d['nq']))
