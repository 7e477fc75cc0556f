"""Native oracle of C14: interpolation per interval, trajectories, repeated inputs."""
from .pdq import *
from casadi_extras.system_trajectory import SystemTrajectory

BOUND = 'random grids, N <= 13 intervals, order <= 9, up to 3 components, up to 6 query points (boundaries, next to them, inside, outside)'


def width(d, cont):
    return (len(d['T']) - 1) * d['order'] + (cont in ('both', 'default'))


def times(rng, d, m):
    out = []
    for _ in range(m):
        c = rng.random()
        k = rng.randrange(len(d['T']) - 1)
        h = d['T'][k + 1] - d['T'][k]
        if c < .35:
            out.append(rng.choice(d['T']))
        elif c < .5:
            z = rng.choice(d['T'])
            out.append(math.nextafter(z, rng.choice([-9e9, 9e9])) if z else rng.choice([-1, 1]) * 1e-200)
        elif c < .7:
            out.append(float(nodes(d, k)[rng.randrange(d['order'] + 1)]))
        elif c < .9:
            out.append(rng.uniform(d['T'][k], d['T'][k + 1]))
        else:
            out.append(rng.choice([d['T'][0] - (d['T'][1] - d['T'][0]) * rng.random() / 2, d['T'][-1] + (d['T'][-1] - d['T'][-2]) * rng.random() / 2]))
    return out


def instances(rng, tier):
    d = dict(T=[0.0, 1.0, 3.0], order=2, scheme='radau')
    for b in ('none', '', None, 'Both', 0):
        yield dict(d, kind='bad', cont=b)
    while True:
        d = rand_grid(rng)
        k = rng.choice(['interp', 'interp', 'interp', 'width', 'trajectory', 'expand'])
        sc = rng.random() < .2
        x = times(rng, d, 1 if sc else rng.randint(1, 6))
        q = dict(d, kind=k, x=x, scalar=sc, xlist=rng.random() < .3)
        r = rng.choice([1, 1, 2, 3])
        if k in ('interp', 'width'):
            q['cont'] = rng.choice(['both', 'left', 'right', 'default'] if k == 'interp' else ['both', 'left', 'right'])
            q['y'] = mat(rng, r, max(0, width(d, q['cont']) + (rng.choice([-1, 1, 2, width(d, 'right')]) if k == 'width' else 0)))
        elif k == 'trajectory':
            q['bad'] = rng.choice([None, None, None, 'y', 'z', 'u'])
            q['flat'] = rng.random() < .2
            q['data'] = {}
            q['dint'] = rng.choice(['', '', 'y', 'z', 'u', 'yz'])
            for v, c in zip('yzu', ('both', 'right', 'right')):
                q['data'][v] = mat(rng, 1 if q['flat'] else rng.choice([1, 2, 3]), width(d, c) + (rng.choice([-1, 1]) if q['bad'] == v else 0))
                if v in q['dint']:
                    q['data'][v] = [[rng.randint(-4, 4) for _ in row] for row in q['data'][v]]
        else:
            q['bad'] = rng.random() < .1
            w = len(d['T']) - 1 + (rng.choice([-1, 1, 2]) if q['bad'] else 0)
            q['u'] = mat(rng, r, w)
            q['type'] = rng.choice(['MX', 'DM', 'SX', 'np'])
        yield q


def query(d):
    return d['x'][0] if d.get('scalar') else list(d['x']) if d.get('xlist') else np.array(d['x'])


def value(d, y, cont):
    """exact values and tolerances at the query points"""
    n, N = d['order'], len(d['T']) - 1
    y = np.array(y, dtype=float)
    out, tol = [[] for _ in y], [[] for _ in y]
    for x in d['x']:
        k = sum(1 for b in d['T'] if (b < x if cont == 'left' else b <= x)) - 1
        k = min(max(k, 0), N - 1)
        tau = nodes(d, k)
        sel = list(range(n + 1)) if cont == 'both' else list(range(1, n + 1)) if cont == 'left' else list(range(n))
        tau = [tau[j] for j in sel]
        L = [cardinal(tau, l, fr(x)) for l in range(len(tau))]
        m = max(float(abs(v)) for v in L)
        for i, row in enumerate(y):
            c = [fr(v) for v in row[k * n:k * n + len(tau)]]
            out[i].append(sum(a * b for a, b in zip(c, L)))
            s = float(max(abs(v) for v in c))
            tol[i].append(1e-11 * s * m + 64 * blur(d) * (n + 1) ** 4 * s * max(m, 1))
    return out, tol


def check(d):
    p = make(d)
    k = d['kind']
    rej = (ValueError, AssertionError)
    if k == 'bad':
        return None if raises(lambda: p.interpolator(d['cont']), ValueError) else 'continuity %r not rejected' % (d['cont'],)
    if k == 'width':
        f = p.interpolator(d['cont'])
        y = np.array(d['y'], dtype=float)
        return None if raises(lambda: f(y, query(d)), *rej) else 'data with %d columns instead of %d not rejected (%s)' % (y.shape[1], width(d, d['cont']), d['cont'])
    if k == 'interp':
        f = p.interpolator() if d['cont'] == 'default' else p.interpolator(continuity=d['cont'])
        y = np.array(d['y'], dtype=float)
        cont = 'both' if d['cont'] == 'default' else d['cont']
        r = compare(f(y, query(d)), *value(d, y, cont), 'interpolation (%s)' % d['cont'])
        if r:
            return r
        # one interpolator serves any data
        return compare(f(2 * y, query(d)), *value(d, 2 * y, cont), 'second interpolation (%s)' % d['cont'])
    if k == 'trajectory':
        D = {v: np.array(a[0] if d.get('flat') else a, dtype=int if v in d.get('dint', '') else float) for v, a in d['data'].items()}
        mk = lambda: SystemTrajectory(D['y'], D['z'], D['u'], p)
        if d.get('bad'):
            return None if raises(mk, *rej) else '%s of wrong width not rejected' % d['bad']
        s = mk()
        for nm, v, c in (('state', 'y', 'both'), ('algState', 'z', 'right'), ('input', 'u', 'right')):
            r = compare(getattr(s, nm)(query(d)), *value(d, d['data'][v], c), nm)
            if r:
                return r
        return None if list(s.time) == list(d['T']) else 'time is %r' % (s.time,)
    u = conv(d['u'], d.get('type', 'MX'))
    if d.get('bad'):
        return None if raises(lambda: p.expandInput(u), *rej) else 'input with %d columns not rejected' % u.shape[1]
    want = [[v for v in row for _ in range(d['order'])] for row in d['u']]
    return compare(p.expandInput(u), want, [[0.0] * len(r) for r in want], 'expanded input')
