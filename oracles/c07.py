"""Native oracle of C07: discretisation."""
from .pieces import *

BOUND = 'random piecewise polynomials, N <= 13 intervals of different length, steps from 1/40 of to more than an interval (one instance: 1/2600), also just beside a divisor of an interval'


def instances(rng, tier):
    for st in (0.1, 0.25, 1.0, 1 / 3, 7.0, 0.49, 1 / 49):
        yield dict(nodes=[0.0, 1.0], T=[0.0, 1.0, 3.0], C=[[[0.0, 1.0]], [[5.0, 7.0]]], step=st)
    yield dict(nodes=[0.0, 1.0], T=[0.0, 1.0, 1.25], C=[[[0.0, 1.0]], [[5.0, 7.0]]], step=1 / 2600)
    while True:
        d = rand_pp(rng)
        T = d['T']
        L = [b - a for a, b in zip(T, T[1:])]
        c = rng.random()
        if c < .4:
            st = rng.choice(L) / rng.randint(1, 12)
        elif c < .8:
            st = rng.uniform(max(L) / 40, max(L))
        else:
            st = rng.uniform(.5, 3) * max(L)
        if c < .2:
            st *= 1 + rng.choice([-1, 1]) * 10.0 ** -rng.randint(2, 13)
        if sum(l / st for l in L) < 400:
            yield dict(d, step=st, step_int=c > .9 and st > 1, again=rng.random() < .3)


def check(i):
    f = make(i)
    st = int(i['step']) if i.get('step_int') else i['step']
    return one(f, i, st) or (one(f, i, st * .7) if i.get('again') else None)


def one(f, i, st):
    r = f.discretize(st)
    if not (isinstance(r, tuple) and len(r) == 2):
        return 'discretize does not return a pair'
    x, y = r
    T = i['T']
    q = len(i['C'][0])
    if np.ndim(x) != 1:
        return 'times are not a vector'
    m = shape_is(y, (q, len(x)), 'values')
    if m:
        return m
    sc = max(abs(T[0]), abs(T[-1]))
    tol = 8 * EPS * (sc + 1e-300)
    pos = 0
    x = list(x)
    for k in range(len(T) - 1):
        h = T[k + 1] - T[k]
        if pos >= len(x) or abs(x[pos] - T[k]) > tol:
            return 'interval %d does not start at its boundary' % k
        lo = pos
        while abs(x[pos] - T[k + 1]) > tol:
            if pos + 1 >= len(x):
                return 'interval %d does not end at its boundary' % k
            if x[pos + 1] < x[pos]:
                return 'times do not ascend'
            if x[pos + 1] - x[pos] > st * (1 + 1e-9) + 4 * tol:
                return 'samples %r and %r further apart than the step %r' % (x[pos], x[pos + 1], st)
            pos += 1
        # samples that coincide with the end up to rounding
        while pos + 1 < len(x) and abs(x[pos + 1] - T[k + 1]) <= tol and (k + 2 > len(T) - 1 or sum(1 for z in x[pos:] if abs(z - T[k + 1]) <= tol) > 2):
            pos += 1
        at = list(range(lo, pos + 1, (pos - lo) // 400 + 1))
        r = cmp_values(y[:, at], i, [k] * len(at), [x[a] for a in at], 'value', 0, 10)
        if r:
            return r
        pos += 1
    if pos != len(x):
        return '%d extra samples' % (len(x) - pos)
    return None
