"""Native oracle of C05: exact piecewise evaluation."""
from .pieces import *

BOUND = 'random piecewise polynomials, N <= 13 intervals, n <= 5 nodes, up to 6 query points (unsorted, repeated, boundary, outside)'


def instances(rng, tier):
    d = dict(nodes=[0.0, 1.0], T=[0.0, 1.0, 3.0], C=[[[0.0, 1.0]], [[5.0, 7.0]]])
    for b in ('both', '', 'Left', None, 0, 'rightmost'):
        yield dict(d, t=[0.5], continuity=b, bad=True)
    while True:
        d = rand_pp(rng)
        sc = rng.random() < .25
        yield dict(d, t=rand_times(rng, d, 1 if sc else rng.randint(1, 6)), scalar=sc, continuity=rng.choice(['left', 'right', 'default']), tl=rng.random() < .2,
                   tint=all(x == int(x) for x in d['T']) and rng.random() < .6)


def check(i):
    f = make(i)
    c = i['continuity']
    x = i['t'][0] if i.get('scalar') else i['t'] if i.get('tl') else np.array(i['t'])
    if i.get('bad'):
        if not raises(lambda: f(x, c), ValueError):
            return 'continuity %r not rejected' % (c,)
        return None if raises(lambda: f(x, continuity=c), ValueError) else 'continuity %r not rejected' % (c,)
    V = f(x) if c in ('default', None) else f(x, c)
    side = 'right' if c in ('default', None) else c
    r = cmp_values(V, i, [piece_of(i['T'], t, side) for t in i['t']], i['t'], 'value (%s)' % c)
    if r:
        return r
    # further calls, with the other option or fewer points, do not depend on this one
    other = 'left' if side == 'right' else 'right'
    r = cmp_values(f(x, other), i, [piece_of(i['T'], t, other) for t in i['t']], i['t'], 'value (%s) after (%s)' % (other, c)) or cmp_values(
        f(x, side), i, [piece_of(i['T'], t, side) for t in i['t']], i['t'], 'value (%s) again' % side)
    if r:
        return r
    if list(f.intervals) != list(i['T']) or f.numIntervals != len(i['T']) - 1:
        return 'intervals reported as %r (%r)' % (f.intervals, f.numIntervals)
    return None
